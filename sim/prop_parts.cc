// Parts in the hands of the user, moved, copied and posed: C21
#include "moves.hpp"
#include <algorithm>

namespace sim {
using ref::cross; using ref::dot; using ref::norm; using ref::unit;
static double diff(Pose const &a, Pose const &b) { return std::max(std::max(ref::maxabs(a.o - b.o), ref::maxabs(a.ex - b.ex)), std::max(ref::maxabs(a.ey - b.ey), ref::maxabs(a.ez - b.ez))); }

// ---- generator
static Trace gen21(Rng &r, bool th) {
  Trace t; int n = int(r.range(5, th ? 60 : 28)); double span = r.chance(0.7) ? 1 : r.uni(1, 40);
  auto tri = [&](long s) { Op o("tri"); o.set("form", r.below(4)); V3 a(r.uni(-span, span), r.uni(-span, span), r.uni(-0.3, 0.3)); double z = r.uni(0.2, 1.5); bool steep = r.chance(0.2); auto d = [&] { return V3(r.uni(-z, z), r.uni(-z, z), steep ? r.uni(-z, z) : r.uni(-0.2, 0.2)); }; o.set("s", s).set("id", r.range(-3, 900)).set("mu", r.chance(0.06) ? 0.0 : std::round(r.uni(0, 1.5) * 64) / 64); put3(o, "a", a); put3(o, "b", a + d()); put3(o, "c", a + d()); return o; };
  auto flat = [&](long s) { Op o = gen_flat(r, s, V3(0, 0, 0)); o.n = "plane"; o.set("s", s).set("form", r.below(5)); return o; };
  auto rib = [&](long s) { Op o("rib"); o.set("s", s).set("id", r.range(0, 40)).set("R", r.uni(0.2, 0.5)).set("y", r.uni(-0.15, 0.15)).set("W", r.uni(0.01, 0.1)).set("angle", r.uni(-1, 1)); return o; };
  auto pose = [&](Op &o) { put_pose(o, V3(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(0.6, 1.0)), r.uni(-3.2, 3.2), r.chance(0.3) ? 0 : r.uni(-0.6, 0.6), r.uni(-3.2, 3.2)); };
  int nt = int(r.range(1, 6)); for (int i = 0; i < nt; ++i) t.push_back(tri(i)); t.push_back(flat(0)); if (r.chance(0.5)) t.push_back(flat(1)); t.push_back(rib(0)); { Op s = gen_shell(r, 0, false); s.set("n", r.range(1, 8)); t.push_back(s); }
  for (int i = 0; i < n; ++i) {
    double u = r.uni(); Op o; long s = long(r.below(8));
    if (u < 0.05) o = tri(s);
    else if (u < 0.27) { o = Op("tmove"); o.set("s", r.chance(0.8) ? long(r.below(u64(nt))) : s); put_move(r, o, span / 2); }
    else if (u < 0.29) { o = Op("tswap"); o.set("s", s).set("i", r.range(0, 2)).set("j", r.range(0, 2)); }
    else if (u < 0.36) { o = Op("tcopy"); o.set("s", s).set("o", long(r.below(u64(nt)))); }
    else if (u < 0.4) o = flat(long(r.below(2)));
    else if (u < 0.5) { o = Op("pmove"); o.set("s", long(r.below(2))); put_move(r, o, 0.5); }
    else if (u < 0.54) { o = Op("pcopy"); o.set("s", long(r.below(2))); }
    else if (u < 0.58) o = rib(long(r.below(3)));
    else if (u < 0.66) { o = Op("rcopy"); o.set("s", long(r.below(3))).set("o", long(r.below(3))).set("way", r.chance(0.6) ? "copy" : "new"); pose(o); o.set("method", r.chance(0.6) ? "geometric" : "sampling").set("on", r.below(4)); }
    else if (u < 0.77) { o = Op("smove"); put_move(r, o, 1.0); }
    else if (u < 0.8) { o = Op("rigid"); pose(o); o.set("spoil", r.below(6)).set("by", r.uni(1.01, 2)); }
    else if (u < 0.815) { o = Op("refuse"); if (r.chance(0.2)) o.set("vert", 1L); o.set("what", r.below(3)).set("form", r.below(3)).set("by", r.chance(0.3) ? 1e-9 : r.uni(0, 2)); }
    else if (u < 0.83) { o = Op("like"); o.set("s", s).set("k", r.below(5)).set("by", r.uni(0.1, 2)); }
    else if (u < 0.855) { o = gen_shell(r, 0, false); o.n = "shape"; o.set("s", long(r.below(2))).set("way", r.below(4)).set("k", r.below(5)).set("by", r.uni(1.02, 1.3)).set("at", r.uni(-0.99, 0.99)); }
    else if (u < 0.94) { o = Op("use"); o.set("s", r.chance(0.8) ? long(r.below(u64(nt))) : s).set("load", r.uni(0.5, 0.98)).set("method", r.chance(0.7) ? "geometric" : "sampling"); pose(o); if (r.chance(0.25)) o.set("fail", r.range(1, 40)); }
    else { o = Op("together"); o.set("seed", r.next() >> 2).set("turn", r.uni(-3.2, 3.2)).set("load", r.uni(0.7, 0.98)).set("method", r.chance(0.6) ? "geometric" : "sampling"); put3(o, "v", V3(r.uni(-5, 5), r.uni(-5, 5), r.uni(-1, 1))); pose(o); Op m = gen_mesh(r, GenOpt(), 0, 0.3, V3()); for (auto &p : m.kv) if (!o.has(p.first) && p.first != "m" && p.first != "build") o.set(p.first, p.second); if (r.chance(0.7)) { o.set("cx", 0.0).set("cy", 0.0).set("cz", 0.0); } }
    t.push_back(o);
  }
  return t;
}

// ---- model
struct TriSlot { lib::Part p; Tri t; long id = 0; };
struct PlaneSlot { lib::Flat f; ref::Flat r; bool made = true; }; // made: an upward plane that could be made new
struct RibSlot { lib::RibPart p; };
struct ShapeSlot { lib::ShapePart p; std::vector<double> v; };
struct Bench {
  Ctx &c; std::map<long, TriSlot> tris; std::map<long, PlaneSlot> planes; std::map<long, RibSlot> ribs; std::map<long, ShapeSlot> shapes; std::shared_ptr<ShellSlot> shell; Pose pose; u64 moves = 0, contacts = 0;
  explicit Bench(Ctx &cx) : c(cx) { pose.ex = V3(1, 0, 0); pose.ey = V3(0, 1, 0); pose.ez = V3(0, 0, 1); }
  void check(TriSlot const &s, std::string const &after) {
    lib::TriView v = s.p.view(); double m = 1 + std::max({ref::maxabs(s.t.v[0]), ref::maxabs(s.t.v[1]), ref::maxabs(s.t.v[2])}); c.oracle_checks += 4;
    if (v.bid != s.id) violate("C21/box-id", fmt("after %s the box of a ground triangle has the number %ld, expected %ld", after.c_str(), v.bid, s.id)); if (v.id != s.id) violate("C21/id", fmt("after %s a ground triangle has the number %ld, expected %ld", after.c_str(), v.id, s.id)); if (v.mu != s.t.mu) violate("C21/friction", fmt("after %s a ground triangle has the friction %g, expected %g", after.c_str(), v.mu, s.t.mu));
    for (int k = 0; k < 3; ++k) if (!(ref::maxabs(v.v[k] - s.t.v[k]) <= 1e-9 * m)) violate("C21/vertices", fmt("after %s vertex %d of a ground triangle is (%.9g %.9g %.9g), expected (%.9g %.9g %.9g)", after.c_str(), k, v.v[k].x, v.v[k].y, v.v[k].z, s.t.v[k].x, s.t.v[k].y, s.t.v[k].z));
    Tri now = s.t; for (int k = 0; k < 3; ++k) now.v[k] = v.v[k]; Box b = ref::box(now); if (!(ref::maxabs(b.lo - v.b.lo) <= 1e-12 * m) || !(ref::maxabs(b.hi - v.b.hi) <= 1e-12 * m)) violate("C21/box", fmt("after %s the box of a ground triangle is (%.9g %.9g %.9g)-(%.9g %.9g %.9g), that of its vertices is (%.9g %.9g %.9g)-(%.9g %.9g %.9g)", after.c_str(), v.b.lo.x, v.b.lo.y, v.b.lo.z, v.b.hi.x, v.b.hi.y, v.b.hi.z, b.lo.x, b.lo.y, b.lo.z, b.hi.x, b.hi.y, b.hi.z));
    V3 cr = cross(now.v[1] - now.v[0], now.v[2] - now.v[0]); double l = std::max(norm(now.v[1] - now.v[0]), norm(now.v[2] - now.v[0])); if (norm(cr) < 1e-4 * l * l || norm(cr) < 1e-9) return; V3 n = ref::up_normal(now); if (std::fabs(n.z) < 1e-7) return;
    if (!(ref::maxabs(n - v.n) <= 1e-9)) violate("C21/normal", fmt("after %s the normal of a ground triangle is (%.9g %.9g %.9g), that of its vertices is (%.9g %.9g %.9g)", after.c_str(), v.n.x, v.n.y, v.n.z, n.x, n.y, n.z));
  }
  void check(PlaneSlot const &s, std::string const &after) {
    ref::Flat f = s.f.view(); double m = 1 + ref::maxabs(s.r.o); ++c.oracle_checks;
    if (f.mu != s.r.mu) violate("C21/friction", fmt("after %s a ground plane has the friction %g, expected %g", after.c_str(), f.mu, s.r.mu));
    if (!(ref::maxabs(f.o - s.r.o) <= 1e-9 * m)) violate("C21/plane", fmt("after %s the origin of a ground plane is (%.9g %.9g %.9g), expected (%.9g %.9g %.9g)", after.c_str(), f.o.x, f.o.y, f.o.z, s.r.o.x, s.r.o.y, s.r.o.z));
    if (!(ref::maxabs(f.n - s.r.n) <= 1e-9)) violate("C21/plane", fmt("after %s the normal of a ground plane is (%.9g %.9g %.9g), expected (%.9g %.9g %.9g)", after.c_str(), f.n.x, f.n.y, f.n.z, s.r.n.x, s.r.n.y, s.r.n.z));
  }
  void check_shell(std::string const &after) {
    Pose q = shell->s.pose(); double tol = 1e-9 * (1 + ref::maxabs(pose.o)); c.oracle_checks += 5; if (!(diff(q, pose) <= tol)) violate("C21/pose", fmt("after %s the wheel frame is at (%.9g %.9g %.9g), expected (%.9g %.9g %.9g), or turned otherwise", after.c_str(), q.o.x, q.o.y, q.o.z, pose.o.x, pose.o.y, pose.o.z));
    char const *how[] = {"translation() and rotation()", "linear()", "x(), y() and z()"}; std::vector<Pose> ps = shell->s.poses(); for (size_t k = 0; k < ps.size(); ++k) if (!(diff(ps[k], pose) <= tol)) violate("C21/pose", fmt("after %s %s do not tell the wheel frame", after.c_str(), how[k]));
    V3 e = shell->s.euler(); Pose z = make_pose(pose.o, e.x, e.y, e.z); if (!(diff(z, pose) <= 1e-6 * (1 + ref::maxabs(pose.o)))) violate("C21/euler", fmt("after %s the Euler angles (%g %g %g) do not give the wheel frame", after.c_str(), e.x, e.y, e.z));
  }
  std::vector<Tri> model() const { std::vector<Tri> v; for (auto &x : tris) { lib::TriView w = x.second.p.view(); Tri q = x.second.t; for (int k = 0; k < 3; ++k) q.v[k] = w.v[k]; v.push_back(q); } return v; }
  std::vector<lib::Part> parts() const { std::vector<lib::Part> v; for (auto &x : tris) v.push_back(x.second.p); return v; }
  // results of two wheels that must agree; move: applied to what the first gives
  void same(lib::Shell const &a, bool va, lib::Shell const &b, bool vb, std::vector<Tri> const &ta, std::vector<Tri> const &tb, Pose const &pa, Pose const &pb, bool geo, std::function<V3(V3)> const &f, std::function<V3(V3)> const &l, char const *cls, char const *who) {
    size_t n = a.size(); std::vector<ref::Rib> rb = ref::ribs(shell->sh, n); bool skip = false;
    for (size_t i = 0; i < n; ++i) {
      Want wa = want_mesh(ta, pa, rb[i], rb, geo, a.bbox()), wb = want_mesh(tb, pb, rb[i], rb, geo, b.bbox()); if (wa.skip || wb.skip) { skip = true; c.st("ribs_skipped"); continue; }
      Out x = a.out(i), y = b.out(i); x.contact = x.vol != 0 || x.area != 0; x.p = f(x.p); x.n = l(x.n); x.ptol = std::max(wa.o.ptol, wb.o.ptol) + 1e-9; x.ntol = std::max(wa.o.ntol, wb.o.ntol) + 1e-9; double e = lib::eps(); if (x.contact && geo && x.area < 20 * e && x.vol < 20 * e) { skip = true; continue; }
      std::string what, d = compare(y, x, rb[i], pb, what); ++c.oracle_checks; if (!d.empty()) violate(std::string("C21/") + cls + "-" + what, fmt("rib %zu of %zu: ", i, n) + who + d); if (x.contact) { ++contacts; c.nontrivial = true; }
    }
    if (!skip && va != vb) violate(std::string("C21/") + cls + "-verdict", fmt("the verdict is %d, expected %d: ", vb, va) + who);
  }
  void use(Op const &op) {
    if (!shell || tris.empty()) return; auto it = tris.find(op.i("s")); if (it == tris.end()) it = tris.begin(); std::vector<Tri> m = model(); lib::TriView t = it->second.p.view(); std::vector<lib::Part> ps = parts(); std::vector<long> ids; for (auto &x : tris) ids.push_back(x.second.id);
    lib::Mesh a, b; Res r = lib::guarded(op.i("fail"), 1, [&] { a = lib::mesh_of(ps); }); if (r.failed) c.st("fault_alloc", u64(r.failed)); if (!r.ok) { if (!r.failed) violate("C21/mesh", "a mesh of moved triangles cannot be built: " + r.what); for (auto &x : tris) check(x.second, "running out of memory"); r = lib::guarded(0, 0, [&] { a = lib::mesh_of(ps); }); if (!r.ok) violate("C21/mesh", "a mesh of moved triangles cannot be built: " + r.what); }
    r = lib::guarded(0, 0, [&] { b = lib::Mesh(m, &ids); }); if (!r.ok) violate("C21/mesh", "a mesh of the same triangles made new cannot be built: " + r.what);
    // box queries around one of them
    V3 g = (1.0 / 3) * (t.v[0] + t.v[1] + t.v[2]); V3 up = ref::up_normal(it->second.t); double R = shell->sh.rx; std::vector<lib::Held> ha, hb;
    for (double e : {0.0, 0.2, 1.0}) { Box q; q.lo = g - V3(e, e, e); q.hi = g + V3(e, e, e); bool qa = a.query(q, ha), qb = b.query(q, hb); auto num = [](std::vector<lib::Held> const &h) { std::vector<long> v; for (auto &x : h) v.push_back(x.view().id); std::sort(v.begin(), v.end()); return v; }; ++c.oracle_checks; if (qa != qb || num(ha) != num(hb)) violate("C21/query", fmt("a box query of a mesh of moved triangles finds %zu of %zu, of the same made new %zu", ha.size(), m.size(), hb.size())); ha.clear(); hb.clear(); }
    Pose p = pose_of(op); if (!ref::finite(up)) up = V3(0, 0, 1); p.o = g + op.d("load") * R * up; std::string method = op.s("method"); bool va = false, vb = false;
    lib::Shell sa(shell->n, shell->sh.rx, shell->sh.mx, shell->sh.ry, shell->sh.my, shell->sh.ly), sb(shell->n, shell->sh.rx, shell->sh.mx, shell->sh.ry, shell->sh.my, shell->sh.ly);
    r = lib::guarded(0, 0, [&] { va = sa.setup(b, p, method); vb = sb.setup(a, p, method); }); if (!r.ok) violate("C21/step", "a step on them failed: " + r.what); c.simtime += 0.002;
    auto same_v = [](V3 x) { return x; }; same(sa, va, sb, vb, m, m, p, p, method == "geometric", same_v, same_v, "moved", "the mesh of moved triangles gives "); for (auto &x : tris) check(x.second, "a step");
  }
  void together(Op const &op) {
    if (!shell) return; std::vector<Tri> t = make_ground(op), u; if (t.size() > 3000) return; double a = op.d("turn"); V3 v = get3(op, "v"); Pose q = make_pose(v, a, 0, 0); u = t; for (auto &x : u) for (auto &y : x.v) y = ref::at(q, y);
    Pose p = pose_of(op), p2; double R = shell->sh.rx, z = -1e9; for (auto &x : t) for (auto &y : x.v) if (std::hypot(y.x - p.o.x, y.y - p.o.y) < R) z = std::max(z, y.z); if (z < -1e8) z = 0; p.o.z = z + op.d("load") * R; p2.o = ref::at(q, p.o); p2.ex = lin(q, p.ex); p2.ey = lin(q, p.ey); p2.ez = lin(q, p.ez);
    lib::Mesh ma, mb; std::string method = op.s("method"); bool va = false, vb = false; lib::Shell sa(shell->n, shell->sh.rx, shell->sh.mx, shell->sh.ry, shell->sh.my, shell->sh.ly), sb(shell->n, shell->sh.rx, shell->sh.mx, shell->sh.ry, shell->sh.my, shell->sh.ly);
    Res r = lib::guarded(0, 0, [&] { ma = lib::Mesh(t); mb = lib::Mesh(u); va = sa.setup(ma, p, method); vb = sb.setup(mb, p2, method); }); if (!r.ok) violate("C21/step", "a step failed: " + r.what); c.simtime += 0.002;
    same(sa, va, sb, vb, t, u, p, p2, method == "geometric", [&](V3 x) { return ref::at(q, x); }, [&](V3 x) { return lin(q, x); }, "together", "ground and wheel moved together give "); c.st("together");
  }
  // a rib equals one made new with its attributes, and none of which one attribute is another
  void rib_like(Op const &op, lib::RibPart const &p) {
    double v[5] = {double(op.i("id")), op.d("R"), op.d("y"), op.d("W"), op.d("angle")}; char const *said[] = {"id", "radius", "position", "width", "angle"}; double by = op.d("by", 0.01);
    auto make = [&](int k) { double w[5]; std::copy(v, v + 5, w); if (k == 0) w[0] += 1; else if (k == 5) w[4] = -w[4]; else if (k > 0) w[k] += by; return lib::RibPart(long(w[0]), w[1], w[2], w[3], w[4]); };
    lib::RibPart same = make(-1); c.oracle_checks += 9; std::vector<double> w = p.view(); if (w[0] != v[1] || w[1] != v[3] || w[2] != v[4] || w[3] != 0 || w[4] != v[2] || w[5] != 0 || std::fabs(w[6]) + std::fabs(std::fabs(w[7]) - 1) + std::fabs(w[8]) != 0) violate("C21/rib", fmt("a rib of radius %.12g at %.12g, %.12g wide and %.12g steep says radius %.12g at (%.12g %.12g %.12g), %.12g wide and %.12g steep", v[1], v[2], v[3], v[4], w[0], w[3], w[4], w[5], w[1], w[2])); if (!same.like(p) || !p.like(same)) violate("C21/like", "a rib does not equal one made new with its attributes");
    if (!(std::fabs(by) > 1e-3)) return;
    for (int k = 0; k < 6; ++k) { if (k == 5 && !(std::fabs(v[4]) > 1e-3)) continue; lib::RibPart o = make(k); if (o.like(p) || p.like(o)) violate("C21/unlike", fmt("a rib equals one of another %s", said[k == 5 ? 4 : k])); }
  }
  void rib_copy(Op const &op) {
    auto f = ribs.find(op.i("o")); if (f == ribs.end()) return; lib::RibPart from = f->second.p; bool copy = op.s("way") == "copy"; RibSlot &to = ribs[op.i("s")]; if (to.p.p == from.p && copy) { to.p.copy(from); return; }
    if (copy) { if (!to.p.p) to.p = lib::RibPart(7, 0.1, 0.3, 0.4, 0.5); to.p.copy(from); } else to.p = from.twin();
    Pose ps = pose_of(op); std::string method = op.s("method"); long on = op.i("on"); std::vector<lib::Part> g = parts();
    auto ask = [&](lib::RibPart const &p) { Out o; bool v = false; if (on == 0 || (on == 1 && g.empty())) v = p.envelop(ps, o); else if (on == 1 || !planes.count(0)) v = p.envelop(g, ps, method, o); else v = p.envelop(planes.at(0).f, ps, method, o); std::vector<double> r = p.view(); for (double x : {v ? 1.0 : 0.0, o.p.x, o.p.y, o.p.z, o.n.x, o.n.y, o.n.z, o.fr, o.depth, o.area, o.vol}) r.push_back(x); return r; };
    Res r = lib::guarded(0, 0, [&] {
      std::vector<double> a = ask(from), b = ask(to.p); c.oracle_checks += 3; size_t w = 0; if (!same_bits(a, b, &w)) violate("C21/rib", fmt("a copied rib differs from its source (value %zu: %.12g, not %.12g)", w, b[w], a[w])); if (!to.p.like(from) || !from.like(to.p)) violate("C21/rib", "a copied rib does not equal its source");
      lib::RibPart other = to.p.twin(); other.set(0.77, -0.2); other.translate(V3(0, 0.1, 0)); if (!same_bits(ask(to.p), b, &w)) violate("C21/rib", "changing a copy of a rib changes the rib"); });
    if (!r.ok) violate("C21/rib", "a rib cannot be asked: " + r.what); ++moves; c.st("rib_copies");
  }
  // what cannot be ground is refused by every constructor
  void refuse(Op const &op) {
    long what = op.i("what"), form = op.i("form"); double by = op.d("by", 0.5); if (!(by > 0)) return; char const *said[] = {"a ground triangle of negative friction", "a plane of negative friction", "a plane that does not face up"};
    Res r = lib::guarded(0, 0, [&] { if (what == 0) lib::Part(3, -by, V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0), int(form)); else if (what == 1) lib::Flat(-by, V3(0, 0, 0), V3(0, 0, 1), int(form)); else lib::Flat(1.0, V3(1, 2, 3), V3(0.2, 0.1, op.i("vert") ? 0.0 : -by), int(form)); }); ++c.oracle_checks; c.st("refusals");
    if (r.ok) violate("C21/refused", std::string(said[what % 3]) + " is accepted");
  }
  // the comparison tells equal from clearly different
  void like(Op const &op) {
    double by = op.d("by", 0.5); long k = op.i("k"); c.st("comparisons");
    if (!tris.empty()) { auto it = tris.find(op.i("s")); if (it == tris.end()) it = tris.begin(); lib::TriView v = it->second.p.view(); double m = by * (1 + ref::maxabs(v.v[0]) + ref::maxabs(v.v[1]) + ref::maxabs(v.v[2])); auto make = [&](bool other) { V3 w[3] = {v.v[0], v.v[1], v.v[2]}; double mu = v.mu; if (other) { if (k < 3) w[k] = w[k] + V3(0, m, 0); else mu += by; } return lib::Part(v.id, mu, w[0], w[1], w[2], int(k % 3)); };
      lib::Part a = make(false), b = make(true); c.oracle_checks += 4; if (!a.like(it->second.p) || !it->second.p.like(a)) violate("C21/like", "a ground triangle does not equal one made new with its vertices and friction"); if (b.like(it->second.p) || it->second.p.like(b)) violate("C21/unlike", "a ground triangle equals one of another vertex or friction"); }
    if (!planes.empty()) { auto it = planes.begin(); ref::Flat v = it->second.f.view(); if (!(v.n.z > 1e-3)) return; double m = by * (1 + ref::maxabs(v.o)); V3 o = v.o, n = v.n; double mu = v.mu; if (k == 0) o.x += m; else if (k == 1) o.z -= m; else if (k == 2) n = n + V3(0.5, 0.2, 0.3); else mu += by;
      lib::Flat a(v.mu, v.o, v.n, int(k)), b(mu, o, n, int(k)); c.oracle_checks += 4; if (!a.like(it->second.f) || !it->second.f.like(a)) violate("C21/like", "a plane does not equal one made new with its origin, normal and friction"); if (b.like(it->second.f) || it->second.f.like(b)) violate("C21/unlike", "a plane equals one of another origin, normal or friction"); }
  }
  void shape(Op const &op) {
    long s = op.i("s") & 1, way = op.i("way"); Shape sh = shape_of(op); double five[5] = {sh.rx, sh.mx, sh.ry, sh.my, sh.ly}; std::string did = "being made";
    auto all = [](std::vector<double> v) { v.resize(5); v.push_back(v[0]); v.push_back(v[4]); v.push_back(v[4]); return v; };
    if (way == 0 || !shapes.count(1 - s)) { shapes[s].p = lib::ShapePart(five); shapes[s].v = all(std::vector<double>(five, five + 5)); }
    else if (way == 1) { ShapeSlot from = shapes[1 - s]; if (!shapes.count(s)) shapes[s].p = lib::ShapePart(); shapes[s].p.copy(from.p); shapes[s].v = from.v; did = "being copied"; }
    else if (way == 2) { shapes[s].p = shapes[1 - s].p.twin(); shapes[s].v = shapes[1 - s].v; did = "being copied"; }
    else { if (!shapes.count(s)) s = 1 - s; int k = int(op.i("k") % 5); std::vector<double> v = shapes[s].v; v[size_t(k)] *= op.d("by", 1.1); shapes[s].p.set(k, v[size_t(k)]); shapes[s].v = all(v); did = "an attribute being set"; }
    for (auto &x : shapes) { std::vector<double> v = x.second.p.view(); size_t w = 0; ++c.oracle_checks; if (!same_bits(v, x.second.v, &w)) violate("C21/shape", fmt("after %s value %zu of a shape is %.12g, expected %.12g", did.c_str(), w, v[w], x.second.v[w])); lib::ShapePart fresh(x.second.v.data()); if (!fresh.like(x.second.p) || !x.second.p.like(fresh)) violate("C21/like", "after " + did + " a shape does not equal one made new");
      for (int k = 0; k < 5; ++k) { std::vector<double> o = x.second.v; o[size_t(k)] *= op.d("by", 1.1); lib::ShapePart other(o.data()); if (std::fabs(o[size_t(k)] - x.second.v[size_t(k)]) > 1e-3 && (other.like(x.second.p) || x.second.p.like(other))) violate("C21/unlike", fmt("a shape equals one of another attribute %d", k)); }
      double y = op.d("at") * x.second.v[4]; std::vector<double> a, b; Res ra = lib::guarded(0, 0, [&] { a = x.second.p.at(y); }), rb = lib::guarded(0, 0, [&] { b = fresh.at(y); }); ++c.oracle_checks; if (ra.ok != rb.ok || (ra.ok && !same_bits(a, b, &w))) violate("C21/shape", "after " + did + " a shape has another profile than one made new"); }
    ++moves; c.st("shapes");
  }
  void apply(Op const &op) {
    long s = op.i("s"), o = op.i("o"); std::string const &n = op.n; std::function<V3(V3)> f, l;
    if (n == "tri") { TriSlot x; x.id = op.i("id"); x.t.mu = op.d("mu"); x.t.v[0] = get3(op, "a"); x.t.v[1] = get3(op, "b"); x.t.v[2] = get3(op, "c"); x.p = lib::Part(x.id, x.t.mu, x.t.v[0], x.t.v[1], x.t.v[2], int(op.i("form"))); tris[s] = x; check(x, "being made"); }
    else if (n == "tmove") { auto it = tris.find(s); if (it == tris.end() || !usable(op)) return; f = move_of(op, &l); for (long k = 0; k < op.i("rep", 1); ++k) { give(it->second.p, op); for (auto &v : it->second.t.v) v = f(v); } check(it->second, op.s("how")); ++moves; c.st("moves"); }
    else if (n == "tswap") { auto it = tris.find(s); if (it == tris.end() || op.i("i") == op.i("j")) return; int i = int(op.i("i")) % 3, j = int(op.i("j")) % 3; it->second.p.swap(i, j); std::swap(it->second.t.v[i], it->second.t.v[j]); check(it->second, "swapping vertices"); }
    else if (n == "tcopy") { auto it = tris.find(o); if (it == tris.end() || s == o) return; TriSlot from = it->second; TriSlot &to = tris[s]; if (!to.p.p) to.p = lib::Part(); to.p.copy(from.p); to.t = from.t; to.id = from.id; check(to, "being copied"); check(from, "being copied"); ++moves; c.st("copies"); if (!to.p.like(from.p)) violate("C21/copy", "a copied ground triangle does not equal its source"); }
    else if (n == "plane") { ref::Flat r; r.o = get3(op, "o"); r.n = get3(op, "n"); r.mu = op.d("mu"); if (!(r.n.z > 1e-6)) return; lib::Flat x(r.mu, r.o, r.n, int(op.i("form"))); r.n = unit(r.n); planes.erase(s); planes.emplace(s, PlaneSlot{x, r}); check(planes.at(s), "being made"); }
    else if (n == "pmove") { auto it = planes.find(s); if (it == planes.end() || !usable(op)) return; f = move_of(op, &l); for (long k = 0; k < op.i("rep", 1); ++k) { give(it->second.f, op); it->second.r.o = f(it->second.r.o); it->second.r.n = l(it->second.r.n); } check(it->second, op.s("how")); ++moves; c.st("moves"); plane_step(it->second); }
    else if (n == "pcopy") { auto it = planes.find(1 - (s & 1)); auto to = planes.find(s & 1); if (it == planes.end() || to == planes.end()) return; to->second.f.assign(it->second.f); to->second.r = it->second.r; check(to->second, "being copied"); check(it->second, "being copied"); if (!to->second.f.like(it->second.f)) violate("C21/copy", "a copied plane does not equal its source"); ++moves; c.st("copies"); }
    else if (n == "rib") { ribs[s].p = lib::RibPart(op.i("id"), op.d("R"), op.d("y"), op.d("W"), op.d("angle")); rib_like(op, ribs[s].p); }
    else if (n == "rcopy") rib_copy(op);
    else if (n == "shell") { Shape sh = shape_of(op); size_t k = size_t(op.i("n")); std::shared_ptr<ShellSlot> x; Res r = lib::guarded(0, 0, [&] { x.reset(new ShellSlot{lib::Shell(k, sh.rx, sh.mx, sh.ry, sh.my, sh.ly), sh, k}); }); if (!r.ok) return; shell = x; pose = Pose(); pose.ex = V3(1, 0, 0); pose.ey = V3(0, 1, 0); pose.ez = V3(0, 0, 1); shell->s.transform(pose); check_shell("transform"); }
    else if (n == "smove") { if (!shell || !usable(op)) return; std::string how = op.s("how"); for (long k = 0; k < op.i("rep", 1); ++k) { give(shell->s, op);
      if (how == "translate") pose.o = ref::at(pose, get3(op, "v")); else if (how == "rotate") { Pose q = pose; V3 x = unit(get3(op, "v")); auto col = [&](V3 e) { return lin(pose, turned(e, op.d("a"), x)); }; q.ex = col(V3(1, 0, 0)); q.ey = col(V3(0, 1, 0)); q.ez = col(V3(0, 0, 1)); pose = q; } else pose = pose_of(op); }
      check_shell(how); ++moves; c.st("poses"); }
    else if (n == "rigid") { if (!shell) return; Pose q = pose_of(op); double k = op.d("by", 1.5); long sp = op.i("spoil"); bool want = sp < 3; if (sp == 3) q.ex = k * q.ex; else if (sp == 4) { q.ex = k * q.ex; q.ey = (1 / k) * q.ey; } else if (sp == 5) { if (op.d("x") > 0) q.ex = -1.0 * q.ex; else q.ex = q.ex + (k - 1) * q.ez; }
      double m[16] = {q.ex.x, q.ex.y, q.ex.z, 0, q.ey.x, q.ey.y, q.ey.z, 0, q.ez.x, q.ez.y, q.ez.z, 0, q.o.x, q.o.y, q.o.z, 1}; ++c.oracle_checks; if (shell->s.rigid(m) != want) violate("C21/rigid", fmt("the check of a wheel frame that is %s says %d", want ? "rigid" : sp == 3 ? "scaled" : sp == 4 ? "stretched at constant volume" : "mirrored or sheared", !want)); c.st("rigid_checks"); }
    else if (n == "refuse") refuse(op);
    else if (n == "like") like(op);
    else if (n == "shape") shape(op);
    else if (n == "use") use(op);
    else if (n == "together") together(op);
    else return;
    c.ev(n + fmt(" %ld %zu %llu", s, tris.size(), (unsigned long long)contacts));
  }
  // a wheel on a moved plane, against one on the same plane made new
  void plane_step(PlaneSlot const &p) {
    if (!shell || !(p.r.n.z > 0.05)) return; ref::Flat v = p.f.view(); Pose ps = make_pose(V3(), 0.3 * double(moves % 7), 0.1 * double(moves % 3), 0); ps.o = v.o + 0.8 * shell->sh.rx * v.n; bool a = false, b = false; std::string method = moves % 3 ? "geometric" : "sampling";
    lib::Shell sa(shell->n, shell->sh.rx, shell->sh.mx, shell->sh.ry, shell->sh.my, shell->sh.ly), sb(shell->n, shell->sh.rx, shell->sh.mx, shell->sh.ry, shell->sh.my, shell->sh.ly); lib::Flat fresh(v.mu, v.o, v.n);
    Res r = lib::guarded(0, 0, [&] { a = sa.setup(fresh, ps, method); b = sb.setup(p.f, ps, method); }); if (!r.ok) violate("C21/step", "a step on a moved plane failed: " + r.what); c.simtime += 0.002; bool skip = false; std::vector<ref::Rib> rb = ref::ribs(shell->sh, shell->n);
    for (size_t i = 0; i < shell->n; ++i) { Want w = want_flat(v, ps, rb[i], method == "geometric"); if (w.skip) { skip = true; continue; } Out x = sa.out(i), y = sb.out(i); x.contact = x.vol != 0; x.ptol = w.o.ptol; x.ntol = w.o.ntol; std::string what, d = compare(y, x, rb[i], ps, what); ++c.oracle_checks; if (!d.empty()) violate("C21/plane-" + what, fmt("rib %zu: the moved plane gives ", i) + d); if (x.contact) ++contacts; }
    if (!skip && a != b) violate("C21/plane-verdict", fmt("the verdict on a moved plane is %d, expected %d", b, a));
  }
};
static void exec21(Trace const &t, Ctx &c) {
  { Bench b(c); for (auto &op : t) b.apply(op); c.st("contacts", b.contacts); if (b.moves < 3 || !b.contacts) c.nontrivial = false; c.log.add(b.contacts); }
}
void add_parts(std::vector<Property> &v) {
  v.push_back(Property{"C21", "up to 8 ground triangles, 2 planes, 3 ribs, 2 shapes (by every constructor, refused ones among them) and a wheel through 5-60 translations, rotations, transformations, copies and swaps; after each, vertices, box, normal, friction, frame and angles are compared with a model, and meshes and planes that were moved are driven on beside ones made new, or together with the wheel; non-trivial if a contact was compared after three moves", gen21, exec21});
}
} // namespace sim
