// Drives of shells over grounds: C05 C06 C07 C08 C09 C10 C16 C17
#include "props.hpp"

namespace sim {
static void run_world(Trace const &t, Ctx &c, unsigned ck, char const *tag) {
  World w(c, ck, tag);
  for (auto &op : t) w.apply(op);
  w.finish();
}
static GenOpt base(bool th) { GenOpt g; g.thorough = th; g.max_ops = th ? 40 : 20; return g; }

// ---- C05
static Trace gen05(Rng &r, bool th) { GenOpt g = base(th); g.flat = r.chance(0.2); g.p_sampling = 0.1; g.p_flat = 0.1; g.p_align = r.chance(0.1) ? 0.1 : 0; g.degenerate = r.chance(0.3); Trace t; gen_drive(r, g, t); return t; }
static void exec05(Trace const &t, Ctx &c) { run_world(t, c, CK_GEO, "C05"); }
// ---- C06
static Trace gen06(Rng &r, bool th) { GenOpt g = base(th); g.flat = r.chance(0.5); g.mesh = !g.flat || r.chance(0.7); g.p_sampling = 0.85; g.p_flat = 0.35; Trace t; gen_drive(r, g, t);
  if (r.chance(0.3)) { // grids and hubs such that sampling lines run exactly through vertices and along edges
    double d = std::ldexp(1, -int(r.range(2, 5))); Op *sh = nullptr; std::vector<Tri> gr;
    for (auto &op : t) {
      if (op.n == "shell" && !sh) { sh = &op; }
      if (op.n == "mesh" && op.s("kind") == "hf") { op.set("exact", 1L).set("d", d).set("cx", 0.0).set("cy", 0.0).set("cz", 0.0).set("cmu", op.s("build") == "obj" || r.chance(0.8) ? 1L : 0L).set("hole", r.chance(0.2) ? 0.3 : 0.0); op.set("nx", 2 * r.range(1, 6)).set("ny", 2 * r.range(1, 6)); if (r.chance(0.5)) op.set("rough", 0.0); }
      if (op.n == "step" && sh) {
        std::vector<ref::Rib> rb = ref::ribs(shape_of(*sh), size_t(sh->i("n"))); ref::Rib b = rb[r.below(rb.size())]; int m = int(r.below(5)); double gx = d * double(r.range(-4, 4)), gy = d * double(r.range(-4, 4)), z = b.R * r.uni(0.6, 1.0);
        op.set("yaw", 0.0).set("cam", 0.0).set("pit", 0.0); double ox = m == 1 ? -0.1 * b.R : m == 2 ? 0.1 * b.R : 0, oy = m == 3 ? -0.3 * b.W : m == 4 ? 0.3 * b.W : 0; if (r.chance(0.3)) ox += r.uni(0, d); op.set("x", gx + ox).set("y", gy - b.y + oy).set("z", z);
      }
    }
  }
  return t; }
static void exec06(Trace const &t, Ctx &c) { run_world(t, c, CK_SAMP, "C06"); }
// ---- C07
static Trace gen07(Rng &r, bool th) { GenOpt g = base(th); g.flat = true; g.mesh = r.chance(0.2); g.p_flat = 0.8; g.p_sampling = 0.1; g.p_newground = 0.15; g.max_ops = 30; Trace t; gen_drive(r, g, t); return t; }
static void exec07(Trace const &t, Ctx &c) { run_world(t, c, CK_FLAT, "C07"); }
// ---- C08
static Trace gen08(Rng &r, bool th) { GenOpt g = base(th); g.flat = r.chance(0.5); g.p_flat = 0.4; g.p_resize = 0.15; g.p_sampling = 0.35; Trace t; gen_drive(r, g, t); return t; }
static void exec08(Trace const &t, Ctx &c) { run_world(t, c, CK_AGG, "C08"); }
// ---- C10
static Trace gen10(Rng &r, bool th) { GenOpt g = base(th); g.flat = r.chance(0.5); g.p_flat = 0.35; g.p_sampling = 0.4; g.p_fail = 0.25; g.p_bad = 0.12; g.p_resize = 0.12; g.p_newground = 0.12; g.p_move = 0.15; g.p_align = r.chance(0.2) ? 0.3 : 0; Trace t; gen_drive(r, g, t); return t; }
static void exec10(Trace const &t, Ctx &c) { run_world(t, c, CK_TWIN, "C10"); }
// ---- C16
static Trace gen16(Rng &r, bool th) {
  GenOpt g = base(th); g.flat = r.chance(0.4); g.p_flat = 0.3; g.p_sampling = 0.3; g.p_align = 0.6; g.p_fail = 0.02; g.p_bad = 0.02; g.degenerate = true; Trace t; gen_drive(r, g, t);
  for (auto &op : t) if (op.n == "mesh" && op.s("kind") == "hf" && r.chance(0.5)) { // exact grids, so that alignments are exact
    op.set("exact", 1L).set("d", std::ldexp(double(r.range(1, 4)), -int(r.range(2, 5)))); if (r.chance(0.5)) op.set("rough", 0.0).set("sx", 0.0).set("sy", 0.0); if (r.chance(0.7)) op.set("cx", 0.0).set("cy", 0.0).set("cz", 0.0); }
  if (r.chance(0.5)) for (auto &op : t) if (op.n == "step") { for (char const *k : {"x", "y", "z"}) if (r.chance(0.5)) op.set(k, std::round(op.d(k) * 64) / 64); }
  if (r.chance(0.15)) { // the hub half way between a ground and the same ground turned half round
    double R = 0.3; bool flat_ground = r.chance(0.5); for (auto &op : t) if (op.n == "shell" && op.i("s") == 0) R = op.d("rx");
    for (auto &op : t) {
      if (op.n == "mesh") { op.set("cx", 0.0).set("cy", 0.0).set("cz", 0.0).set("mir", r.chance(0.5) ? 1L : r.range(2, 3)).set("mz", std::round(R * r.uni(0.1, 0.95) * 64) / 64).set("cmu", 1L); if (op.s("kind") == "hf") { if (flat_ground) op.set("amp", 0.0).set("rough", 0.0).set("step", 0.0); if (r.chance(0.5)) op.set("sx", r.uni(-1, 1)); } }
      else if (op.n == "step" && op.s("g", "m0")[0] == 'm') { op.set("x", 0.0).set("y", 0.0); for (auto &m : t) if (m.n == "mesh" && "m" + std::to_string(m.i("m")) == op.s("g", "m0")) op.set("z", m.d("mz")); if (r.chance(0.8)) op.set("cam", 0.0); if (r.chance(0.7)) op.set("yaw", 0.0); }
    } }
  return t;
}
static void exec16(Trace const &t, Ctx &c) { run_world(t, c, CK_FIN, "C16"); }

// ---- C09: the same triangles arriving in different orders, by different ways
static Trace gen09(Rng &r, bool th) {
  GenOpt g = base(th); g.p_fail = g.p_bad = g.p_move = 0; g.p_resize = 0.04; g.p_newground = 0; g.degenerate = true; g.p_align = r.chance(0.3) ? 0.5 : 0; g.const_mu = r.chance(0.4); g.max_ops = th ? 24 : 12; Trace t0, t; gen_drive(r, g, t0);
  bool one = false;
  for (auto &op : t0) {
    if (op.n == "mesh") { if (one) continue; one = true; op.set("m", 0L).set("perm", 0L).set("wind", 0L).set("build", "vec"); if (op.i("deg") == 0 && r.chance(0.4)) op.set("deg", r.range(1, 4)); t.push_back(op);
      int n = int(r.range(1, 3));
      for (int k = 1; k <= n; ++k) { Op o = op; o.set("m", long(k)).set("perm", r.chance(0.3) ? u64(1) : (r.next() >> 2)); if (r.chance(0.4)) o.set("wind", r.next() >> 2);
        double b = r.uni(); if (b < 0.3) o.set("build", "rdf"); else if (b < 0.45) o.set("build", "copy"); else if (b < 0.55) o.set("build", "reload"); else if (b < 0.75 && op.i("cmu")) o.set("build", "obj"); 
        o.set("style", r.below(256)); if (r.chance(0.3)) o.set("share", 0L); t.push_back(o); } }
    else if (op.n == "step") { op.set("g", "m0"); t.push_back(op); }
    else if (op.n != "flat") t.push_back(op);
  }
  return t;
}
static void exec09(Trace const &t, Ctx &c) {
  World w(c, 0, "C09"); std::map<long, bool> wound;
  for (auto &op : t) {
    if (op.n == "mesh") { w.apply(op); wound[op.i("m")] = op.u("wind", 0) != 0; continue; }
    if (op.n != "step") { w.apply(op); continue; }
    auto it = w.shells.find(op.i("s", 0)); if (it == w.shells.end() || !w.meshes.count(0)) continue; lib::Shell &s = it->second.s; Pose ps = pose_of(op); std::string method = op.s("method"); bool geo = method == "geometric";
    size_t n = s.size(); struct R { bool v = false; std::vector<Out> o; Out g; }; std::map<long, R> res;
    for (auto &m : w.meshes) {
      R r; Res q = lib::guarded(0, 0, [&] { r.v = s.setup(m.second.m, ps, method); }); ++w.steps; c.simtime += 0.001;
      if (!q.ok) violate("C09/error", fmt("step fails on arrangement %ld: ", m.first) + q.what);
      for (size_t i = 0; i < n; ++i) r.o.push_back(s.out(i)); r.g = s.out(); res[m.first] = r;
    }
    R const &a = res[0]; std::vector<ref::Rib> ribs = ref::ribs(it->second.sh, n); std::vector<Tri> const &T = w.meshes.at(0).t;
    for (auto &kv : res) { if (kv.first == 0) continue; R const &b = kv.second; bool anyskip = false, wnd = wound[kv.first] || w.meshes.at(kv.first).t.size() != T.size();
      if (w.meshes.at(kv.first).t.size() != T.size()) continue;
      for (size_t i = 0; i < n; ++i) {
        Out const &x = a.o[i], &y = b.o[i]; bool skip = false;
        if (geo) { if (wnd && ref::geometric(T, ps, ribs[i]).amb) skip = true; double e = lib::eps(); if ((x.area < 20 * e && x.vol < 20 * e && y.area < 20 * e && y.vol < 20 * e) && (x.vol != 0 || y.vol != 0)) skip = true; }
        else { Box rep = s.bbox(); if (want_mesh(T, ps, ribs[i], ribs, false, rep).skip) skip = true; }
        if (skip) { anyskip = true; c.st("order_skipped"); continue; }
        Out e = x; e.contact = x.vol != 0 || x.area != 0; e.ptol = 1e-7; e.ntol = 1e-6; std::string what; 
        auto nan_same = [](Out const &p, Out const &q) { auto f = [](double u, double v) { return (u != u) == (v != v); }; return f(p.p.x, q.p.x) && f(p.fr, q.fr) && f(p.depth, q.depth) && f(p.vol, q.vol); };
        bool nan = x.p.x != x.p.x || x.fr != x.fr || x.vol != x.vol; if (nan && nan_same(x, y)) { anyskip = true; continue; }
        std::string d = compare(y, e, ribs[i], ps, what); ++c.oracle_checks;
        if (!d.empty()) violate("C09/" + what, fmt("step %llu (%s) rib %zu: the arrangement %ld of the same triangles gives ", (unsigned long long)w.steps, method.c_str(), i, kv.first) + d + " from the first");
      }
      if (anyskip) continue;
      if (a.v != b.v) violate("C09/verdict", fmt("the verdict depends on the arrangement of the records (%d vs %d)", a.v, b.v));
      c.st("order_compared"); if (a.v) { c.nontrivial = true; c.st("order_compared_contact"); }
    }
    std::vector<double> lg; for (auto &o : a.o) { lg.push_back(o.vol); lg.push_back(o.p.x); lg.push_back(o.n.z); } for (double z : lg) c.log.add(z);
  }
  w.finish();
}

// ---- C17: twin executions with different memory contents, layout and neighbours
static Trace gen17(Rng &r, bool th) {
  GenOpt g = base(th); g.flat = r.chance(0.5); g.p_flat = 0.35; g.p_sampling = 0.4; g.p_bad = 0.03; g.p_fail = 0; g.p_resize = 0.12; g.p_newground = 0.1; g.p_align = r.chance(0.3) ? 0.4 : 0; g.max_ops = 14; Trace t; gen_drive(r, g, t);
  for (auto &op : t) if (op.n == "resize") { if (op.i("n") < 1) op.set("n", 1L); op.set("fail", 0L); }
  Op o("memory"); o.set("a", r.next() >> 2).set("b", r.next() >> 2); t.insert(t.begin(), o); return t;
}
struct Twin { std::vector<std::vector<double>> snaps; std::vector<std::string> files; };
static void one17(Trace const &t, Ctx &c, u64 fill, Twin &out) {
  World w(c, 0, "C17"); Rng r(fill); alloc_fill(fill); std::vector<std::shared_ptr<lib::Shell>> clutter; std::vector<std::unique_ptr<char[]>> holes; u64 nstep = 0; (void)nstep;
  for (auto &op : t) {
    if (op.n == "memory") continue;
    if (fill & 1) { // unrelated activity
      double q = r.uni(); if (q < 0.3) holes.emplace_back(new char[1 + r.below(3000)]); else if (q < 0.45 && !holes.empty()) holes.erase(holes.begin() + long(r.below(holes.size())));
      else if (q < 0.55) { clutter.push_back(std::make_shared<lib::Shell>(size_t(r.range(1, 6)), 0.3, 5, 0.2, 5, 0.15)); lib::Flat f(1, V3(0, 0, 0), V3(0, 0.1, 1)); clutter.back()->setup(f, make_pose(V3(0, 0, r.uni(0.1, 0.4)), 0.1, 0.2, 0), r.chance(0.5) ? "geometric" : "sampling"); if (clutter.size() > 3) clutter.erase(clutter.begin()); }
    }
    stack_scribble(fill * 4 + r.below(3));
    w.apply(op);
    if (op.n == "step") { auto it = w.shells.find(op.i("s", 0)); if (it != w.shells.end() && it->second.stepped) out.snaps.push_back(snapshot(it->second.s, it->second.last)); }
    if (op.n == "shell" || op.n == "resize") { auto it = w.shells.find(op.i("s", 0)); if (it != w.shells.end()) { std::vector<double> v = snapshot(it->second.s, false); out.snaps.push_back(v); } } // before any step
    if (op.n == "mesh" && w.meshes.count(op.i("m"))) { std::string f = w.path("out"), d; stack_scribble(fill * 4 + 1); w.meshes.at(op.i("m")).m.print(f); get_file(f, d); del_file(f); Hash h; h.add(d); out.files.push_back(fmt("%016llx", (unsigned long long)h.h)); }
  }
  w.finish(); alloc_fill(0);
}
static void exec17(Trace const &t, Ctx &c) {
  u64 a = 3, b = 6; for (auto &op : t) if (op.n == "memory") { a = op.u("a", 3); b = op.u("b", 6); }
  Twin x, y; a &= ~1ULL; b |= 1; if (!a) a = 2; one17(t, c, a, x); std::map<std::string, u64> none; Ctx c2; c2.stats = &none; c2.verbose = c.verbose; one17(t, c2, b, y);
  size_t n = std::min(x.snaps.size(), y.snaps.size()); size_t k = 0; c.simtime += c2.simtime;
  for (size_t i = 0; i < n; ++i) { size_t w = 0; ++c.oracle_checks; if (!same_bits(x.snaps[i], y.snaps[i], &w)) violate("C17/step", fmt("step %zu: two executions differ at %s: %.17g and %.17g", i, where_in_snapshot(w, (x.snaps[i].size() - 49) / 29).c_str(), w < x.snaps[i].size() ? x.snaps[i][w] : -1, w < y.snaps[i].size() ? y.snaps[i][w] : -1)); if (x.snaps[i][0]) ++k; log_values(c, x.snaps[i]); }
  if (x.snaps.size() != y.snaps.size()) violate("C17/outcome", "two executions differ in which steps succeed");
  if (x.files != y.files) violate("C17/file", "two executions write different files");
  c.st("twins"); c.st("twin_steps", n); if (k) c.nontrivial = true;
}

void add_drive(std::vector<Property> &v) {
  v.push_back({"C05", "a random shell, 1-2 random meshes (height field, kerb, holes, walls, soup; built directly, from RDF/OBJ, by copy or reload) and a drive of 2-20 steps with resizes, ground changes, hand moves, failed allocations and invalid methods between; non-trivial: some rib compared with the brute-force reference was in contact", gen05, exec05});
  v.push_back({"C06", "as C05 with sampling steps on meshes and planes; non-trivial: some rib in contact was compared with the reference", gen06, exec06});
  v.push_back({"C07", "a random shell and drive over planes that are replaced and edited; non-trivial: some rib in contact was compared with the reference", gen07, exec07});
  v.push_back({"C08", "a drive over meshes and planes with frequent resizes; after each step all aggregates, list forms, frames and angles are recomputed from the indexed outputs; non-trivial: some step made contact", gen08, exec08});
  v.push_back({"C09", "2-4 arrangements of the same triangles (record order, vertex order, format, copy), driven in lock step; non-trivial: a contact result was compared between arrangements", gen09, exec09});
  v.push_back({"C10", "a drive with failed allocations, invalid methods, resizes, hand moves and ground changes; each step repeated on a fresh shell and compared bit for bit; non-trivial: a contact step after the first was compared", gen10, exec10});
  v.push_back({"C16", "a drive with exact alignments of ribs with vertices, edges and rims, degenerate, duplicate, vertical and overhead triangles; non-trivial: some step made contact", gen16, exec16});
  v.push_back({"C17", "a trace executed twice with different heap and stack contents, layout and unrelated activity, compared bit for bit; non-trivial: some step made contact", gen17, exec17});
}
} // namespace sim
