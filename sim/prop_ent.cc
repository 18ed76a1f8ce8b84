// Geometric entities and boxes in the hands of the user, through any history: C23
#include "moves.hpp"
#include <algorithm>

namespace sim {
using namespace lib;
static bool meet(Box const &a, Box const &b) { return a.lo.x <= b.hi.x && b.lo.x <= a.hi.x && a.lo.y <= b.hi.y && b.lo.y <= a.hi.y && a.lo.z <= b.hi.z && b.lo.z <= a.hi.z; }
struct EntModel { int k = POINT; V3 v[3]; double r = 0; long id = 0, pos = 0; bool blank = true; };
static int nvec(int k) { return k == POINT || k == BALL ? 1 : k == TRIANGLE ? 3 : 2; }
static bool directed(int k) { return k == LINE || k == RAY || k == PLANE || k == DISK; }
static bool round_(int k) { return k == DISK || k == BALL; }
static char const *ent_name(int k) { return k == lib::BOX ? "box" : kind_name[k]; }
static long const kinds[] = {POINT, LINE, RAY, PLANE, SEGMENT, TRIANGLE, DISK, BALL, lib::BOX};

static Trace gen23(Rng &r, bool th) {
  Trace t; int n = int(r.range(8, th ? 90 : 45)); double span = r.chance(0.6) ? 1 : r.chance(0.7) ? r.uni(1, 30) : r.uni(30, 3000); long few = r.chance(0.4) ? kinds[r.below(9)] : -1; int ns = int(r.range(2, 6));
  auto at = [&] { return r.chance(0.1) ? V3(std::round(r.uni(-2, 2)), std::round(r.uni(-2, 2)), std::round(r.uni(-2, 2))) : V3(r.uni(-span, span), r.uni(-span, span), r.uni(-span, span)); };
  auto dir = [&] { V3 d = r.chance(0.25) ? V3(r.range(0, 1) ? 1 : 0, r.chance(0.5) ? 1 : 0, r.chance(0.5) ? -1 : 0) : V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)); if (norm(d) < 0.05) d = V3(0, 0, 1); return r.chance(0.6) ? unit(d) : r.uni(0.2, 4) * d; };
  auto make = [&](long s) { Op o("new"); long k = few >= 0 && r.chance(0.7) ? few : kinds[r.below(9)]; o.set("s", s).set("k", k).set("form", r.below(3)); V3 a = at(); double z = span * r.uni(0.1, 1); auto near = [&] { V3 d(r.uni(-z, z), r.uni(-z, z), r.uni(-z, z)); return r.chance(0.07) ? a : a + d; }; put3(o, "a", a); put3(o, "b", directed(int(k)) ? dir() : near()); put3(o, "c", near()); o.set("r", r.chance(0.08) ? 0.0 : r.uni(0.01, 2) * (r.chance(0.5) ? 1 : span)); return o; };
  for (int i = 0; i < ns; ++i) t.push_back(make(i));
  for (int i = 0; i < n; ++i) {
    double u = r.uni(); Op o; long s = long(r.below(u64(ns)));
    if (u < 0.1) o = make(s);
    else if (u < 0.13) { o = Op("blank"); o.set("s", s).set("k", kinds[r.below(9)]).set("fill", r.next() >> 2); }
    else if (u < 0.36) { o = Op("move"); o.set("s", s); put_move(r, o, span); }
    else if (u < 0.38) { o = Op("carry"); o.set("s", s).set("i", r.below(3)); }
    else if (u < 0.48) { o = Op("set"); o.set("s", s).set("i", r.below(3)).set("how", r.below(3)); put3(o, "v", at()); put3(o, "d", dir()); o.set("r", r.uni(0, 2)); if (r.chance(0.2)) o.set("rad", 1L); if (r.chance(0.5)) o.set("id", r.range(-5, 99)).set("pos", r.range(0, 99)); }
    else if (u < 0.55) { o = Op("turn"); o.set("s", s).set("i", r.below(3)).set("j", r.below(3)); }
    else if (u < 0.59) { o = Op("normalize"); o.set("s", s); }
    else if (u < 0.69) { o = Op("copy"); o.set("s", s).set("o", r.below(u64(ns))).set("way", r.below(4)); }
    else if (u < 0.79) { o = Op("ask"); o.set("s", s).set("p", r.uni(-2, 2)).set("q", r.uni(-2, 2)).set("z", r.uni(0.05, 2) * (r.chance(0.5) ? 1 : -1)); }
    else if (u < 0.85) { o = Op("like"); o.set("s", s).set("i", r.below(4)).set("by", r.uni(0.05, 2)); }
    else if (u < 0.9) { o = Op("boxes"); o.set("s", s).set("way", r.below(6)); put3(o, "a", at()); put3(o, "b", at()); put3(o, "c", at()); o.set("k", r.below(6)); if (r.chance(0.4)) o.set("self", 1L); if (r.chance(0.5)) o.set("i", 1L); }
    else { o = Op("meet"); o.set("s", s).set("way", r.below(4)).set("seed", r.next() >> 2); }
    t.push_back(o);
  }
  return t;
}

struct Ents {
  struct Slot { EntPart p; EntModel m; };
  Ctx &c; std::map<long, Slot> sl; u64 moves = 0, asked = 0; std::vector<double> fixed;
  explicit Ents(Ctx &x) : c(x), fixed(constants()) {}
  static double size(EntModel const &m) { double d = 1; for (int i = 0; i < nvec(m.k); ++i) if (ref::finite(m.v[i])) d = std::max(d, ref::maxabs(m.v[i])); return d + std::fabs(m.r == m.r ? m.r : 0); }
  static V3 middle(EntModel const &m) { V3 s; for (int i = 0; i < nvec(m.k); ++i) s = s + m.v[i]; return (1.0 / nvec(m.k)) * s; }
  // what it computes, from the attributes as the library gives them
  static std::vector<double> reference(EntModel const &m, V3 q) {
    std::vector<double> v; auto add = [&](V3 x) { v.push_back(x.x); v.push_back(x.y); v.push_back(x.z); }; V3 a = m.v[0], b = m.v[1], cc = m.v[2];
    switch (m.k) {
    case LINE: case RAY: add(b); add(unit(b)); break;
    case PLANE: { double d = dot(q - a, b); add(unit(b)); v.push_back(-dot(a, b)); v.push_back(std::fabs(d)); v.push_back(d * d); v.push_back(d); break; }
    case SEGMENT: add(0.5 * (a + b)); add(b - a); add(unit(b - a)); v.push_back(norm(b - a)); break;
    case TRIANGLE: { V3 n = cross(b - a, cc - a); add((1.0 / 3) * (a + b + cc)); add(a); add(b); add(b); add(cc); add(cc); add(a); add(unit(n)); v.push_back(norm(b - a) + norm(cc - b) + norm(a - cc)); v.push_back(0.5 * norm(n)); double nn = dot(n, n), w1 = dot(cross(q - a, cc - a), n) / nn, w2 = dot(cross(b - a, q - a), n) / nn; v.push_back(1 - w1 - w2); v.push_back(w1); v.push_back(w2); for (int i = 0; i < 3; ++i) v.push_back(0); add(unit(n)); break; }
    case DISK: v.push_back(2 * M_PI * m.r); v.push_back(M_PI * m.r * m.r); add(a); add(b); break;
    case BALL: v.push_back(4 * M_PI * m.r * m.r); v.push_back(4.0 / 3 * M_PI * m.r * m.r * m.r); break;
    default: break;
    }
    return v;
  }
  static bool thin(EntModel const &m) { // too thin for unit vectors and ratios
    if (m.k == TRIANGLE) { double l = std::max({norm(m.v[1] - m.v[0]), norm(m.v[2] - m.v[0]), norm(m.v[2] - m.v[1])}); return !(norm(cross(m.v[1] - m.v[0], m.v[2] - m.v[0])) > 1e-3 * l * l) || l < 1e-3 * size(m); }
    if (m.k == SEGMENT) return norm(m.v[1] - m.v[0]) < 1e-4 * size(m); if (directed(m.k)) return norm(m.v[1]) < 1e-3; return false;
  }
  void check(Slot &s, std::string const &after) {
    EntModel &m = s.m; std::vector<V3> v = s.p.raw(); char const *nm = ent_name(m.k); double tol = 1e-9 * size(m); c.oracle_checks += 3;
    for (int i = 0; i < nvec(m.k); ++i) { bool nan = !ref::finite(m.v[i]); if (nan ? ref::finite(v[size_t(i)]) || v[size_t(i)].x == v[size_t(i)].x : !(ref::maxabs(v[size_t(i)] - m.v[i]) <= tol)) violate("C23/attribute", fmt("after %s attribute %d of a %s is (%.12g %.12g %.12g), expected (%.12g %.12g %.12g)", after.c_str(), i, nm, v[size_t(i)].x, v[size_t(i)].y, v[size_t(i)].z, m.v[i].x, m.v[i].y, m.v[i].z)); }
    if (round_(m.k)) { double R = s.p.radius(); if (m.r == m.r ? R != m.r : R == R) violate("C23/radius", fmt("after %s the radius of a %s is %.12g, expected %.12g", after.c_str(), nm, R, m.r)); }
    if (m.k == lib::BOX) { auto nr = s.p.number(); if (nr.first != m.id || nr.second != m.pos) violate("C23/number", fmt("after %s a box has the numbers %ld, %ld, expected %ld, %ld", after.c_str(), nr.first, nr.second, m.id, m.pos)); }
    else if (s.p.type() != nm) violate("C23/type", fmt("a %s says it is a %s", nm, s.p.type().c_str()));
  }
  void check_all(std::string const &after) { for (auto &x : sl) check(x.second, after); }
  void derive(Slot &s, Op const &op) {
    EntModel m = s.m; std::vector<V3> raw = s.p.raw(); for (int i = 0; i < nvec(m.k); ++i) { if (!ref::finite(raw[size_t(i)])) return; m.v[i] = raw[size_t(i)]; } if (m.r != m.r) return; if (m.k == lib::BOX) { box(s, m, op); return; }
    char const *nm = ent_name(m.k); double p = op.d("p"), q = op.d("q"), z = op.d("z"), sz = size(m); bool thn = thin(m); ++asked; V3 a = m.v[0], b = m.v[1], cc = m.v[2], in = a; bool judge = true, out_ok = true, unitd = std::fabs(norm(b) - 1) < 1e-12; V3 u = directed(m.k) ? unit(b) : V3(0, 0, 1), w = unit(std::fabs(u.z) < 0.9 ? cross(u, V3(0, 0, 1)) : cross(u, V3(1, 0, 0))), w2 = cross(u, w); double ang = 3.0 * p; V3 side = std::cos(ang) * w + std::sin(ang) * w2; V3 out = a; double off = z * std::max(1.0, 0.01 * sz);
    switch (m.k) { // a point well inside and one well outside
    case POINT: out = a + V3(off, 0, 0); break;
    case LINE: in = a + p * u; out = a + p * u + off * side; judge = unitd && std::fabs(p) > 0.05; out_ok = std::fabs(p) < 3; break;
    case RAY: in = a + (std::fabs(p) + 0.05) * u; out = q > 0 ? a - (std::fabs(p) + 0.05) * u : in + off * side; judge = unitd; break;
    case PLANE: in = a + p * w + q * w2; out = in + off * u; judge = unitd; break;
    case SEGMENT: { double f = std::fabs(p) / 2 * 0.98 + 0.01; in = a + f * (b - a); V3 d = b - a, k = norm(d) > 0 ? unit(d) : V3(0, 0, 1), e = unit(std::fabs(k.z) < 0.9 ? cross(k, V3(0, 0, 1)) : cross(k, V3(1, 0, 0))); out = q > 1 ? b + std::fabs(off) * k : q < -1 ? a - std::fabs(off) * k : in + std::max(std::fabs(off), 0.2 * norm(d)) * e; break; }
    case TRIANGLE: { double f = std::fabs(p) / 2 * 0.9 + 0.05, g = (1 - f) * (std::fabs(q) / 2 * 0.9 + 0.05); in = a + f * (b - a) + g * (cc - a); V3 n = thn ? V3(0, 0, 1) : unit(cross(b - a, cc - a)); out = q > 1 ? in + off * n : p > 1 ? a - 0.3 * (b - a) : p < -1 ? b + 0.4 * (b - cc) : a + 0.7 * (b - a) + 0.7 * (cc - a); judge = !thn; break; }
    case DISK: in = a + 0.95 * std::fabs(p) / 2 * m.r * side; out = q > 0 ? in + off * u : a + (1.05 * m.r + std::fabs(off)) * side; judge = unitd; break;
    default: in = a + 0.95 * std::fabs(p) / 2 * m.r * side; out = a + (1.05 * m.r + std::fabs(off)) * side; break;
    }
    std::vector<double> got = s.p.derived(m.k == TRIANGLE ? in + 0.2 * (b - a) : out), want = reference(m, m.k == TRIANGLE ? in + 0.2 * (b - a) : out); ++c.oracle_checks; double tol = 1e-9 * sz * sz * (round_(m.k) ? sz : 1);
    if (got.size() != want.size()) violate("C23/derived", "the harness and the library disagree about the number of values"); if (!thn) for (size_t i = 0; i < got.size(); ++i) if (!(std::fabs(got[i] - want[i]) <= tol)) violate("C23/derived", fmt("value %zu computed by a %s is %.12g, that of its attributes is %.12g", i, nm, got[i], want[i]));
    if (judge && sz < 5000 && (m.k != BALL || true)) { c.oracle_checks += 2; bool small = round_(m.k) && m.r < 1e-3 && m.k == DISK; if (!small && !s.p.inside(in)) violate("C23/inside", fmt("a %s does not contain one of its points (%.9g %.9g %.9g)", nm, in.x, in.y, in.z)); if (out_ok && s.p.inside(out)) violate("C23/outside", fmt("a %s contains (%.9g %.9g %.9g), which lies off it", nm, out.x, out.y, out.z)); }
    double e = eps(); bool deg = false, sure = true; auto len = [&](double d) { if (d < e / 4) deg = true; else if (d < 4 * e) sure = false; };
    if (m.k == SEGMENT) len(norm(b - a)); else if (m.k == TRIANGLE) { len(norm(b - a)); len(norm(cc - b)); len(norm(a - cc)); } else if (directed(m.k)) len(norm(b)); if (round_(m.k)) len(m.r); ++c.oracle_checks; if (sure && s.p.degenerated() != deg) violate("C23/degenerate", fmt("a %s that is %sdegenerate says %d", nm, deg ? "" : "not ", !deg));
    if (m.k == TRIANGLE) { int i = std::fabs(p) < 0.7 ? int(std::fabs(p) * 4.3) : p > 0 ? 3 + int(q * q * q * 50) : -1 - int(std::fabs(q * q * q) * 50); if (p > 0 && i < 3) i = i < 0 ? 3 : i; for (int w3 = 0; w3 < 5; ++w3) { ++c.oracle_checks; if (s.p.takes(i, w3) != (i >= 0 && i < 3)) violate("C23/index", fmt("a triangle %s %s %d", i >= 0 && i < 3 ? "has no" : "has a", w3 == 4 ? "edge" : "vertex", i)); } }
    if (directed(m.k) && !thn) { EntPart flat = s.p.twin(0); flat.set(1, V3(0, 0, 0), 0); ++c.oracle_checks; if (!flat.degenerated()) violate("C23/degenerate", fmt("a %s without a direction says it is not degenerate", nm)); }
    bool can = m.k == POINT || m.k == SEGMENT || m.k == TRIANGLE || round_(m.k); for (int six = 0; six < 2; ++six) { Box g; g.lo = V3(7, 8, 9); g.hi = V3(1, 2, 3); bool r = s.p.clamp(g, six); ++c.oracle_checks; if (r != can) violate("C23/clamp", fmt("the box of a %s %s", nm, r ? "is said to exist" : "is said not to exist")); if (!can) continue; V3 lo = a, hi = a; for (int i = 1; i < (directed(m.k) ? 1 : nvec(m.k)); ++i) { lo = V3(std::min(lo.x, m.v[i].x), std::min(lo.y, m.v[i].y), std::min(lo.z, m.v[i].z)); hi = V3(std::max(hi.x, m.v[i].x), std::max(hi.y, m.v[i].y), std::max(hi.z, m.v[i].z)); }
      double R = round_(m.k) ? m.r : 0; V3 rr(R, R, R); if (m.k == DISK) { // at least the disk, at most the ball around it
        V3 ex(R * std::sqrt(std::max(0.0, 1 - u.x * u.x)), R * std::sqrt(std::max(0.0, 1 - u.y * u.y)), R * std::sqrt(std::max(0.0, 1 - u.z * u.z))); double t9 = 1e-9 * sz; for (int k = 0; k < 3; ++k) { double l = k == 0 ? g.lo.x : k == 1 ? g.lo.y : g.lo.z, h = k == 0 ? g.hi.x : k == 1 ? g.hi.y : g.hi.z, o = k == 0 ? a.x : k == 1 ? a.y : a.z, x = k == 0 ? ex.x : k == 1 ? ex.y : ex.z; if (!(l <= o - x + t9 && l >= o - R - t9 && h >= o + x - t9 && h <= o + R + t9)) violate("C23/clamp", fmt("the box of a disk is %.9g to %.9g on axis %d", l, h, k)); } continue; }
      if (!(ref::maxabs(g.lo - (lo - rr)) <= 1e-12 * sz && ref::maxabs(g.hi - (hi + rr)) <= 1e-12 * sz)) violate("C23/clamp", fmt("the box of a %s is (%.9g %.9g %.9g)-(%.9g %.9g %.9g), that of its attributes (%.9g %.9g %.9g)-(%.9g %.9g %.9g)", nm, g.lo.x, g.lo.y, g.lo.z, g.hi.x, g.hi.y, g.hi.z, lo.x - R, lo.y - R, lo.z - R, hi.x + R, hi.y + R, hi.z + R)); }
    check(s, "being asked"); c.st("asked");
  }
  void box(Slot &s, EntModel const &m, Op const &op) {
    bool ord = m.v[0].x <= m.v[1].x && m.v[0].y <= m.v[1].y && m.v[0].z <= m.v[1].z; ++c.oracle_checks; if (s.p.ordered(false) != ord) violate("C23/box-order", fmt("a box with its corners %s says %d", ord ? "in order" : "out of order", !ord)); if (!ord) return;
    double f = std::fabs(op.d("p")) / 2, g = std::fabs(op.d("q")) / 2, h = std::fabs(op.d("z")) / 2; V3 d = m.v[1] - m.v[0], in = m.v[0] + V3(f * d.x, g * d.y, h * d.z); int ax = int(std::fabs(op.d("p")) * 1000) % 3; bool up = op.d("q") > 0; V3 out = in; (ax == 0 ? out.x : ax == 1 ? out.y : out.z) = up ? (ax == 0 ? m.v[1].x : ax == 1 ? m.v[1].y : m.v[1].z) + std::fabs(op.d("z")) : (ax == 0 ? m.v[0].x : ax == 1 ? m.v[0].y : m.v[0].z) - std::fabs(op.d("z"));
    c.oracle_checks += 4; auto clampd = [](double x, double l, double u) { return std::min(std::max(x, l), u); }; in = V3(clampd(in.x, m.v[0].x, m.v[1].x), clampd(in.y, m.v[0].y, m.v[1].y), clampd(in.z, m.v[0].z, m.v[1].z)); if (!s.p.inside(in)) violate("C23/inside", "a box does not contain one of its points"); if (!s.p.inside(m.v[0]) || !s.p.inside(m.v[1])) violate("C23/inside", "a box does not contain one of its corners"); if (s.p.inside(out)) violate("C23/outside", fmt("a box contains a point %.3g beyond it on axis %d", op.d("z"), ax));
    if (std::min({d.x, d.y, d.z}) > 1e-6 * size(m)) { V3 dn(std::max({m.v[0].x - out.x, out.x - m.v[1].x, 0.0}), std::max({m.v[0].y - out.y, out.y - m.v[1].y, 0.0}), std::max({m.v[0].z - out.z, out.z - m.v[1].z, 0.0})), df(std::max(std::fabs(out.x - m.v[0].x), std::fabs(out.x - m.v[1].x)), std::max(std::fabs(out.y - m.v[0].y), std::fabs(out.y - m.v[1].y)), std::max(std::fabs(out.z - m.v[0].z), std::fabs(out.z - m.v[1].z))); c.oracle_checks += 3; double t9 = 1e-9 * (size(m) + norm(out)), gn = s.p.away(out, false), gf = s.p.away(out, true), gi = s.p.away(in, false);
      if (!(std::fabs(gn - norm(dn)) <= t9)) violate("C23/distance", fmt("a box says a point is %.12g away, it is %.12g", gn, norm(dn))); if (!(std::fabs(gi) <= t9)) violate("C23/distance", fmt("a box says a point in it is %.12g away", gi)); if (!(std::fabs(gf - norm(df)) <= t9)) violate("C23/distance", fmt("a box says its far end is %.12g from a point, it is %.12g", gf, norm(df))); }
    double e = norm(d), big = std::min(norm(m.v[0]), norm(m.v[1])); if (e == 0 || e > 1e-6 * big + 1e-12) if (s.p.degenerated() != (e == 0)) violate("C23/degenerate", fmt("a box %s says %d", e == 0 ? "of no size" : "of some size", e != 0)); ++asked; c.st("asked");
  }
  void apply(Op const &op) {
    long k = op.i("s"); std::string const &n = op.n; std::string after = n; bool have = sl.count(k) > 0;
    if (n == "new") { Slot s; int kd = int(op.i("k")); if (kd < POINT || kd > lib::BOX) return; s.m.k = kd; s.m.blank = false; s.m.v[0] = get3(op, "a"); s.m.v[1] = get3(op, "b"); s.m.v[2] = get3(op, "c"); s.m.r = round_(kd) ? op.d("r") : 0; if (kd == lib::BOX) { s.m.id = 5; s.m.pos = 6; } s.p = EntPart(kd, s.m.v[0], s.m.v[1], s.m.v[2], s.m.r, int(op.i("form"))); if (kd == lib::BOX) { V3 a = s.m.v[0], b = s.m.v[1]; s.m.v[0] = V3(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)); s.m.v[1] = V3(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)); } sl[k] = s; after = "being made"; }
    else if (n == "blank") { int kd = int(op.i("k")); if (kd < POINT || kd > lib::BOX) return; Slot s; s.m.k = kd; double q = std::nan(""); for (auto &v : s.m.v) v = V3(q, q, q); s.m.r = round_(kd) ? q : 0; alloc_fill(op.u("fill") | 1); stack_scribble(op.u("fill")); s.p = EntPart::blank(kd); alloc_fill(0); sl[k] = s; after = "being made of nothing"; c.st("blank"); }
    else if (!have) return;
    else { Slot &s = sl.at(k); EntModel &m = s.m; std::function<V3(V3)> f, l;
      if (n == "move") { if (!usable(op) || (m.k == lib::BOX && op.s("how", "translate") != "translate")) return; f = move_of(op, &l); for (long j = 0; j < op.i("rep", 1); ++j) { give(s.p, op); for (int i = 0; i < nvec(m.k); ++i) m.v[i] = directed(m.k) && i == 1 ? l(m.v[i]) : f(m.v[i]); } after = op.s("how"); ++moves; c.st("moves"); }
      else if (n == "carry") { int i = int(op.i("i")) % nvec(m.k); if (directed(m.k) && i == 1) i = 0; if (!ref::finite(m.v[i]) || size(m) > 1e7) return; V3 v = s.p.raw()[size_t(i)]; s.p.carry(i); for (int j = 0; j < nvec(m.k); ++j) if (!(directed(m.k) && j == 1)) m.v[j] = m.v[j] + v; after = fmt("a move by its own attribute %d", i); ++moves; }
      else if (n == "set") { int i = int(op.i("i")) % nvec(m.k); if (op.i("rad") && round_(m.k)) { m.r = op.d("r"); s.p.radius(m.r); } else { V3 v = get3(op, directed(m.k) && i == 1 ? "d" : "v"); m.v[i] = v; s.p.set(i, v, int(op.i("how"))); } if (m.k == lib::BOX && op.has("id")) { m.id = op.i("id"); m.pos = op.i("pos"); s.p.number(m.id, m.pos); } after = "an attribute being set"; }
      else if (n == "turn") { int i = int(op.i("i")) % 3, j = int(op.i("j")) % 3; if (m.k == TRIANGLE) std::swap(m.v[i], m.v[j]); else if (m.k == SEGMENT) std::swap(m.v[0], m.v[1]); else if (directed(m.k)) m.v[1] = -1.0 * m.v[1]; else return; s.p.turn_round(i, j); after = "being turned round"; ++moves; }
      else if (n == "normalize") { if (!directed(m.k) || !ref::finite(m.v[1]) || norm(m.v[1]) < 1e-3) return; s.p.normalize(); m.v[1] = unit(m.v[1]); after = "normalizing"; }
      else if (n == "copy") { auto it = sl.find(op.i("o")); if (it == sl.end() || it->first == k) return; int w = int(op.i("way")); if (w < 2 || it->second.m.k != m.k) { EntPart q = it->second.p.twin(w & 1); s.p = q; } else s.p.assign(it->second.p, w == 3); s.m = it->second.m; after = "being copied"; ++moves; c.st("copies"); bool nan = !ref::finite(s.m.v[0]) || !ref::finite(s.m.v[nvec(s.m.k) - 1]); if (round_(s.m.k) && s.m.r != s.m.r) nan = true; c.oracle_checks += 2; for (int i = 0; i < nvec(s.m.k); ++i) nan = nan || !ref::finite(s.m.v[i]); if (!nan && (!s.p.like(it->second.p) || !it->second.p.like(s.p))) violate("C23/like", fmt("a copied %s does not equal its source", ent_name(s.m.k))); }
      else if (n == "ask") { derive(s, op); return; }
      else if (n == "like") { // equal to one made new, different from one made otherwise
        EntModel w = m; std::vector<V3> raw = s.p.raw(); for (int i = 0; i < nvec(m.k); ++i) { if (!ref::finite(raw[size_t(i)])) return; w.v[i] = raw[size_t(i)]; } if (w.r != w.r) return; if (m.k == lib::BOX && !s.p.ordered(false)) return; EntPart a(m.k, w.v[0], w.v[1], w.v[2], w.r, int(op.i("i"))); double by = op.d("by", 0.5); int i = int(op.i("i")); bool rad = round_(m.k) && i == 3; i %= nvec(m.k); if (rad) w.r += by; else if (m.k == lib::BOX) { double d = by * (1 + norm(w.v[0]) + norm(w.v[1])); if (i) w.v[1] = w.v[1] + V3(0, d, 0); else w.v[0] = w.v[0] - V3(0, 0, d); } else if (directed(m.k) && i == 1) w.v[1] = w.v[1] + by * (1 + norm(w.v[1])) * V3(0, 1, 0); else { double d = by * (1 + norm(w.v[i])); w.v[i] = w.v[i] + V3(i == 0 ? d : 0, i == 1 ? d : 0, i == 2 ? d : 0); }
        EntPart b(m.k, w.v[0], w.v[1], w.v[2], w.r, int(op.i("i")) + 1); c.oracle_checks += 4; if (!a.like(s.p) || !s.p.like(a)) violate("C23/like", fmt("a %s does not equal one made new with its attributes", ent_name(m.k))); if (b.like(s.p) || s.p.like(b)) violate("C23/unlike", fmt("a %s equals one of another %s", ent_name(m.k), rad ? "radius" : fmt("attribute %d", i).c_str())); c.st("comparisons"); return; }
      else if (n == "boxes") { if (m.k != lib::BOX) return; int w = int(op.i("way")); V3 a = get3(op, "a"), b = get3(op, "b"), q = get3(op, "c");
        if (w < 2) { s.p.wrap_around(a, b, q, w == 1); m.v[0] = V3(std::min({a.x, b.x, q.x}), std::min({a.y, b.y, q.y}), std::min({a.z, b.z, q.z})); m.v[1] = V3(std::max({a.x, b.x, q.x}), std::max({a.y, b.y, q.y}), std::max({a.z, b.z, q.z})); after = "being laid around points"; }
        else if (w == 2) { if (!ref::finite(m.v[0]) || !ref::finite(m.v[1])) return; bool ord = m.v[0].x <= m.v[1].x && m.v[0].y <= m.v[1].y && m.v[0].z <= m.v[1].z, r = s.p.ordered(true); ++c.oracle_checks; if (r != ord) violate("C23/box-order", fmt("putting the corners of a box in order says %d", r)); V3 l0 = m.v[0], h0 = m.v[1]; m.v[0] = V3(std::min(l0.x, h0.x), std::min(l0.y, h0.y), std::min(l0.z, h0.z)); m.v[1] = V3(std::max(l0.x, h0.x), std::max(l0.y, h0.y), std::max(l0.z, h0.z)); after = "its corners being put in order"; }
        else if (w == 5) { if (!ref::finite(m.v[0]) || !ref::finite(m.v[1]) || !s.p.ordered(false)) return; s.p.grow(q, op.i("i") & 1); V3 l0 = m.v[0], h0 = m.v[1]; m.v[0] = V3(std::min({l0.x, h0.x, q.x}), std::min({l0.y, h0.y, q.y}), std::min({l0.z, h0.z, q.z})); m.v[1] = V3(std::max({l0.x, h0.x, q.x}), std::max({l0.y, h0.y, q.y}), std::max({l0.z, h0.z, q.z})); after = "being laid around its corners and a point"; }
        else if (w == 3) { s.p.forget(); double z = std::nan(""); m.v[0] = m.v[1] = V3(z, z, z); after = "being cleared"; }
        else { std::vector<EntPart> v; V3 lo, hi; bool any = false; for (auto &x : sl) if (x.second.m.k == lib::BOX && (x.first != k || op.i("self")) && ref::finite(x.second.m.v[0]) && ref::finite(x.second.m.v[1])) { EntModel const &y = x.second.m; bool ok = y.v[0].x <= y.v[1].x && y.v[0].y <= y.v[1].y && y.v[0].z <= y.v[1].z; if (!ok) continue; v.push_back(x.second.p); lo = any ? V3(std::min(lo.x, y.v[0].x), std::min(lo.y, y.v[0].y), std::min(lo.z, y.v[0].z)) : y.v[0]; hi = any ? V3(std::max(hi.x, y.v[1].x), std::max(hi.y, y.v[1].y), std::max(hi.z, y.v[1].z)) : y.v[1]; any = true; }
          Rng r(op.u("k") + 17 * v.size()); for (int j = 0; j < int(op.i("k")); ++j) { V3 p = a + V3(r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)), z = p + V3(r.uni(0, 3), r.uni(0, 3), r.uni(0, 3)); v.push_back(EntPart(lib::BOX, p, z, p, 0, 1)); lo = any ? V3(std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z)) : p; hi = any ? V3(std::max(hi.x, z.x), std::max(hi.y, z.y), std::max(hi.z, z.z)) : z; any = true; }
          if (!any) { if (!op.i("k") && r.chance(0.3)) return; s.p.merge(v, false); ++c.oracle_checks; std::vector<V3> z = s.p.raw(); if (!(ref::maxabs(z[1] - z[0]) == 0)) violate("C23/merge", "a box merged of nothing has a size"); m.v[0] = z[0]; m.v[1] = z[1]; check_all("merging nothing"); ++moves; return; } bool make = op.i("i") & 1; s.p.merge(v, make); m.v[0] = lo; m.v[1] = hi; if (make) { m.id = 8; m.pos = 9; } after = fmt("merging %zu boxes", v.size()); c.st("merges"); } ++moves; }
      else if (n == "meet") { if (m.k != lib::BOX || !ref::finite(m.v[0]) || !ref::finite(m.v[1]) || !(m.v[0].x <= m.v[1].x && m.v[0].y <= m.v[1].y && m.v[0].z <= m.v[1].z)) return; Rng r(op.u("seed")); std::vector<V3> raw = s.p.raw(); V3 lo = raw[0], hi = raw[1], d = hi - lo; Box w; w.lo = lo; w.hi = hi; Box o; int way = int(op.i("way"));
        auto el = [](V3 &v, int i) -> double & { return i == 0 ? v.x : i == 1 ? v.y : v.z; }; for (int i = 0; i < 3; ++i) { double L = el(lo, i), H = el(hi, i), D = el(d, i) + 0.1, x = r.uni(), a, b; if (way == 0 || x < 0.4) { a = L + D * r.uni(-1, 1); b = a + D * r.uni(0, 1.5); } else if (x < 0.6) { a = H; b = H + D; } else if (x < 0.8) { b = L; a = L - D; } else { a = L - D; b = H + D; } el(o.lo, i) = a; el(o.hi, i) = b; }
        EntPart q(lib::BOX, o.lo, o.hi, o.lo, 0, 1); bool want = meet(w, o); c.oracle_checks += 2; if (s.p.meets(q) != want || q.meets(s.p) != want) violate("C23/meet", fmt("a box (%.9g %.9g %.9g)-(%.9g %.9g %.9g) %s (%.9g %.9g %.9g)-(%.9g %.9g %.9g)", lo.x, lo.y, lo.z, hi.x, hi.y, hi.z, want ? "is said not to overlap" : "is said to overlap", o.lo.x, o.lo.y, o.lo.z, o.hi.x, o.hi.y, o.hi.z)); c.st(want ? "meet" : "apart"); return; }
      else return; }
    c.ev(after + fmt(" %ld", k)); check_all(after);
  }
};
static void exec23(Trace const &t, Ctx &c) {
  Ents e(c); for (auto &op : t) e.apply(op); std::vector<double> f = constants(); size_t w = 0; ++c.oracle_checks; for (size_t i = 0; i < f.size(); ++i) if ((f[i] != f[i]) != (e.fixed[i] != e.fixed[i]) || (f[i] == f[i] && f[i] != e.fixed[i])) { w = i; violate("C23/constants", fmt("a constant of the library has changed (value %zu)", w)); }
  for (size_t i = 0; i < f.size(); ++i) { bool nan = f[i] != f[i]; if (nan != (i >= 31)) violate("C23/constants", fmt("a constant of the library is %g (value %zu)", f[i], i)); }
  if (e.moves > 2 && e.asked) c.nontrivial = true; for (auto &x : e.sl) for (V3 v : x.second.p.raw()) c.log.add(v.x);
}
void add_ent(std::vector<Property> &v) {
  v.push_back(Property{"C23", "2-6 points, lines, rays, planes, segments, triangles, disks, balls and boxes through 8-90 constructions (every constructor, on dirty memory too), moves, settings, turns, copies, merges and questions; attributes of all of them are compared with a model after each, computed values, boxes, contained points, overlaps and comparisons with own formulas; non-trivial if something was asked after three moves", gen23, exec23});
}
} // namespace sim
