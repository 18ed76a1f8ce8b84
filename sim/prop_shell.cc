// Threads, resizes, S-function sessions and memory exhaustion: C04 C11 C12 C13 C14
#include "props.hpp"
#include <algorithm>
#include <limits>

namespace sim {
static std::vector<double> bits_of(std::vector<lib::TriView> const &v) { std::vector<double> o; for (auto &t : v) { o.push_back(double(t.id)); o.push_back(t.mu); for (int k = 0; k < 3; ++k) { o.push_back(t.v[k].x); o.push_back(t.v[k].y); o.push_back(t.v[k].z); } o.push_back(t.n.x); o.push_back(t.n.y); o.push_back(t.n.z); } return o; }
static bool by_id(lib::TriView const &a, lib::TriView const &b) { return a.id < b.id; }
static std::vector<double> answer(lib::Mesh const &m, Box const &b) { std::vector<lib::Held> h; bool v = m.query(b, h); std::vector<lib::TriView> t; for (auto &x : h) t.push_back(x.view()); std::stable_sort(t.begin(), t.end(), by_id); std::vector<double> o = bits_of(t); o.push_back(v); return o; }
static Box box_of(Op const &op) { V3 c(op.d("x"), op.d("y"), op.d("z")); double s = op.d("r", 0.3); Box b; b.lo = c - V3(s, s, s); b.hi = c + V3(s, s, s); return b; }
static Pose identity() { Pose p; p.ex = V3(1, 0, 0); p.ey = V3(0, 1, 0); p.ez = V3(0, 0, 1); return p; }

// ================================================================ C04
struct Log { std::vector<double> v; std::vector<size_t> at; std::vector<std::string> what; void add(std::vector<double> const &x, std::string const &w) { at.push_back(v.size()); what.push_back(w); v.insert(v.end(), x.begin(), x.end()); } };
struct Shared { std::map<long, lib::Mesh> m; std::map<long, lib::Flat> f; };
static Shared shared_of(Trace const &t) {
  Shared s; for (auto &op : t) {
    if (op.n == "mesh") s.m[op.i("m")] = lib::Mesh(make_ground(op));
    if (op.n == "flat") { s.f.erase(op.i("f")); s.f.emplace(op.i("f"), lib::Flat(op.d("mu"), V3(op.d("ox"), op.d("oy"), op.d("oz")), V3(op.d("nx"), op.d("ny"), op.d("nz", 1)))); }
  } return s;
}
static void thread_body(Trace const &t, long me, Shared &sh, Log &log) {
  std::map<long, lib::Shell> shells; std::map<long, lib::Mesh> own; long no = 0;
  for (auto &op : t) {
    if (!op.has("t") || op.i("t") != me) continue;
    long s = op.i("s", 0), fail = op.i("fail", 0); std::vector<double> out; Res r; bool verdict = false;
    if (op.n == "shell") { Shape q = shape_of(op); shells.erase(s); r = lib::guarded(fail, 1, [&] { shells.emplace(s, lib::Shell(size_t(op.i("n", 5)), q.rx, q.mx, q.ry, q.my, q.ly)); }); }
    else if (op.n == "resize") { auto it = shells.find(s); if (it == shells.end()) continue; r = lib::guarded(fail, 1, [&] { it->second.resize(size_t(op.i("n", 5))); }); if (r.ok) out = snapshot(it->second, false); }
    else if (op.n == "step") {
      auto it = shells.find(s); if (it == shells.end()) continue; std::string g = op.s("g", "m0"), me2 = op.s("method", "geometric"); long k = std::strtol(g.c_str() + 1, nullptr, 10); Pose ps = pose_of(op);
      if (g[0] == 'o') { auto j = own.find(k); if (j == own.end()) continue; r = lib::guarded(fail, 1, [&] { verdict = it->second.setup(j->second, ps, me2); }); }
      else if (g[0] == 'm') { auto j = sh.m.find(k); if (j == sh.m.end()) continue; r = lib::guarded(fail, 1, [&] { verdict = it->second.setup(j->second, ps, me2); }); }
      else { auto j = sh.f.find(k); if (j == sh.f.end()) continue; r = lib::guarded(fail, 1, [&] { verdict = it->second.setup(j->second, ps, me2); }); }
      if (r.ok) out = snapshot(it->second, verdict);
    }
    else if (op.n == "move") { auto it = shells.find(s); if (it == shells.end()) continue; it->second.rotate(op.d("a"), V3(0, 0, 1)); it->second.translate(V3(op.d("x"), op.d("y"), op.d("z"))); out = snapshot(it->second, false); }
    else if (op.n == "ask") { auto j = sh.m.find(op.i("m", 0)); if (j == sh.m.end()) continue; r = lib::guarded(fail, 1, [&] { out = answer(j->second, box_of(op)); }); }
    else if (op.n == "scan") { auto j = sh.m.find(op.i("m", 0)); if (j == sh.m.end()) continue; out = bits_of(j->second.tris()); }
    else if (op.n == "load") { // an own mesh from an own file
      std::vector<Tri> tr = make_ground(op); if (tr.empty()) continue; bool obj = op.s("fmt") == "obj"; std::string p = scratch() + fmt("/t%ld_%03ld.", me, no++) + (obj ? "obj" : "rdf"); put_file(p, obj ? obj_text(tr, op.u("style"), true) : rdf_text(tr, op.u("style"), true));
      lib::Mesh m; r = lib::guarded(fail, 1, [&] { m = obj ? lib::Mesh(p, 0.5, identity()) : lib::Mesh(p, identity()); }); del_file(p); if (r.ok) { own[s] = m; out = bits_of(m.tris()); }
    }
    else if (op.n == "make") { std::vector<Tri> tr = make_ground(op); r = lib::guarded(fail, 1, [&] { own[s] = lib::Mesh(tr); }); if (r.ok) out = answer(own[s], box_of(op)); }
    else if (op.n == "print") { auto j = own.find(s); if (j == own.end()) continue; std::string p = scratch() + fmt("/p%ld_%03ld.txt", me, no++), txt; r = lib::guarded(fail, 1, [&] { j->second.print(p); }); get_file(p, txt); del_file(p); if (r.ok) { Hash h; h.add(txt); out.push_back(double(h.h >> 12)); out.push_back(double(txt.size())); } }
    else if (op.n == "drop") { own.erase(s); if (op.i("sh")) shells.erase(s); }
    else if (op.n == "tree") { Rng q(op.u("seed")); std::vector<Box> b[2]; for (int w = 0; w < 2; ++w) for (u64 i = 0, n = q.below(20); i < n; ++i) { V3 c(q.uni(), q.uni(), q.uni()); double z = q.uni(0, 0.3); Box x; x.lo = c; x.hi = c + V3(z, z, z); b[w].push_back(x); }
      std::vector<std::pair<long, long>> pr; r = lib::guarded(fail, 1, [&] { lib::Tree a, d; a.build(b[0]); d.build(b[1]); a.pairs(d, pr); }); if (r.ok) { std::sort(pr.begin(), pr.end()); for (auto &x : pr) { out.push_back(double(x.first)); out.push_back(double(x.second)); } } }
    else continue;
    out.push_back(r.ok); out.push_back(r.oom); log.add(out, op.n + (op.has("g") ? " on " + op.s("g") : "") + (fail ? " with memory failing" : "") + (r.ok ? "" : " failed"));
    if (!r.ok && !r.failed && !(op.n == "step" && op.s("method", "geometric") != "geometric" && op.s("method") != "sampling") && !(op.n == "resize" && op.i("n", 5) <= 0)) log.what.back() += ": " + r.what;
  }
}
static Trace gen04(Rng &r, bool th) {
  GenOpt g; g.thorough = th; g.max_ops = th ? 10 : 5; g.flat = true; g.p_sampling = 0.35; g.p_flat = 0.25; g.p_fail = 0.12; g.p_bad = 0.06; g.p_newground = 0; g.p_move = 0.06; g.p_resize = 0.12;
  long n = r.chance(0.6) ? 2 : r.range(3, 4); Trace t; std::vector<Trace> per; Trace base;
  for (long k = 0; k < n; ++k) {
    Trace d; Rng q(r.next()); gen_drive(q, g, d); bool first = k == 0; V3 off; Trace mine;
    for (auto &op : d) {
      if (op.n == "mesh" || op.n == "flat") { if (first) { Op o = op; for (auto &p : o.kv) if (p.first == "build") p.second = "vec"; base.push_back(o); } continue; }
      Op o = op; o.set("t", k); mine.push_back(o);
    }
    per.push_back(mine);
  }
  // all wheels roll over the ground of the first thread: shift the other drives onto it
  auto first_step = [](Trace const &d, V3 &p) { for (auto &op : d) if (op.n == "step") { p = V3(op.d("x"), op.d("y"), op.d("z")); return true; } return false; };
  V3 p0; bool s0 = first_step(per[0], p0);
  for (long k = 0; k < n; ++k) {
    V3 pk; bool sk = first_step(per[size_t(k)], pk); double dx = 0, dy = 0, dz = 0; if (s0 && sk && k) { dx = p0.x - pk.x; dy = p0.y - pk.y; dz = p0.z - pk.z; }
    Trace out; long meshes = 0, flats = 0; for (auto &b : base) { meshes += b.n == "mesh"; flats += b.n == "flat"; }
    Op own = gen_mesh(r, g, 0, 0.4, s0 ? V3(p0.x, p0.y, p0.z - 0.3) : V3()); if (own.s("kind") == "hf") own.set("nx", r.range(1, 5)).set("ny", r.range(1, 4)); else own.set("n", r.range(2, 15)); bool have = false;
    for (auto op : per[size_t(k)]) {
      if (op.n == "step") { op.set("x", op.d("x") + dx).set("y", op.d("y") + dy).set("z", op.d("z") + dz); std::string gr = op.s("g"); if (gr == "m1" && meshes < 2) op.set("g", "m0"); }
      double u = r.uni();
      if (u < 0.12) { Op a("ask"); a.set("t", k).set("m", 0L).set("x", op.d("x") + r.uni(-0.5, 0.5)).set("y", op.d("y")).set("z", op.d("z") - 0.3).set("r", r.uni(0.05, 1)); if (r.chance(0.15)) a.set("fail", r.range(1, 10)); out.push_back(a); }
      else if (u < 0.16) { Op a("scan"); a.set("t", k).set("m", 0L); out.push_back(a); }
      else if (u < 0.26) { Op a = own; bool ld = r.chance(0.5); a.n = ld ? "load" : "make"; a.set("t", k).set("s", 0L).set("fmt", r.chance(0.5) ? "obj" : "rdf").set("style", r.below(256)); if (r.chance(0.15)) a.set("fail", r.range(1, 60)); out.push_back(a); have = true; }
      else if (u < 0.3 && have) { Op a("print"); a.set("t", k).set("s", 0L); out.push_back(a); }
      else if (u < 0.34) { Op a("drop"); a.set("t", k).set("s", 0L); out.push_back(a); have = false; }
      else if (u < 0.4) { Op a("tree"); a.set("t", k).set("seed", r.next() >> 2); out.push_back(a); }
      else if (u < 0.5 && have && op.n == "step") op.set("g", "o0");
      out.push_back(op);
    }
    per[size_t(k)] = out;
  }
  Op sc("sched"); sc.set("seed", r.next() >> 2).set("style", r.range(0, 4)); t.push_back(sc); for (auto &b : base) t.push_back(b); for (auto &p : per) for (auto &op : p) t.push_back(op);
  return t;
}
static void exec04(Trace const &t, Ctx &c) {
  SchedPlan plan; long n = 0; bool print_script = false;
  for (auto &op : t) { if (op.has("t")) n = std::max(n, op.i("t") + 1);
    if (op.n == "sched") { plan.seed = op.u("seed"); plan.style = int(op.i("style")); print_script = op.has("dump");
      if (op.has("script")) { plan.scripted = true; std::string s = op.s("script"); size_t i = 0; while (i < s.size()) { char *e; u64 y = strtoull(s.c_str() + i, &e, 10); if (*e != ':') break; long w = strtol(e + 1, &e, 10); plan.script.emplace_back(y, int(w)); i = size_t(e - s.c_str()); if (i < s.size() && s[i] == ',') ++i; else break; } } } }
  if (n < 1) return; if (n > 8) n = 8;
  std::vector<Log> logs(static_cast<size_t>(n)); std::vector<std::string> esc(static_cast<size_t>(n));
  Shared sh = shared_of(t); std::vector<std::function<void()>> bodies;
  for (long k = 0; k < n; ++k) bodies.push_back([&, k] { try { thread_body(t, k, sh, logs[size_t(k)]); } catch (Violation const &v) { esc[size_t(k)] = v.msg; } catch (std::exception const &e) { esc[size_t(k)] = e.what(); } alloc_disarm(); });
  SchedSeen seen = run_threads(bodies, plan);
  c.st("threads", u64(n)); c.st("sched_yields", seen.yields); c.st("sched_switches", seen.switches); c.st("sched_style_" + std::to_string(plan.style));
  c.log.add(seen.order_hash); c.log.add(seen.yields); c.ev(fmt("%ld threads, %llu yield points, %llu switches, order %016llx", n, (unsigned long long)seen.yields, (unsigned long long)seen.switches, (unsigned long long)seen.order_hash));
  if (print_script) { std::string s; for (auto &m : seen.made) s += (s.empty() ? "" : ",") + fmt("%llu:%d", (unsigned long long)m.first, m.second); fprintf(stderr, "SCRIPT %s\n", s.c_str()); }
  for (long k = 0; k < n; ++k) { // each thread alone, on ground of its own
    Shared s2 = shared_of(t); Log solo; std::string e2; try { thread_body(t, k, s2, solo); } catch (Violation const &v) { e2 = v.msg; } catch (std::exception const &e) { e2 = e.what(); } alloc_disarm();
    Log &l = logs[size_t(k)]; c.oracle_checks += solo.at.size(); c.st("thread_calls", solo.at.size());
    if (esc[size_t(k)] != e2) violate("C04/exception", fmt("thread %ld got an unexpected error: ", k) + esc[size_t(k)] + (e2.empty() ? "" : " (alone: " + e2 + ")"));
    if (l.what != solo.what) { size_t i = 0; while (i < l.what.size() && i < solo.what.size() && l.what[i] == solo.what[i]) ++i; violate("C04/outcome", fmt("thread %ld call %zu: \"%s\" among other threads, \"%s\" alone", k, i, i < l.what.size() ? l.what[i].c_str() : "nothing", i < solo.what.size() ? solo.what[i].c_str() : "nothing")); }
    size_t w = 0; if (!same_bits(l.v, solo.v, &w)) { size_t i = 0; while (i + 1 < l.at.size() && l.at[i + 1] <= w) ++i; violate("C04/result", fmt("thread %ld call %zu (%s): value %zu is %.17g among other threads, %.17g alone", k, i, i < l.what.size() ? l.what[i].c_str() : "", w - (i < l.at.size() ? l.at[i] : 0), w < l.v.size() ? l.v[w] : -1, w < solo.v.size() ? solo.v[w] : -1)); }
    for (double x : l.v) c.log.add(x);
    for (auto &s : solo.what) { if (s.find("failing failed") != std::string::npos) c.st("fault_alloc_in_thread"); if (s.find("step") == 0 && s.find(": ") != std::string::npos) violate("C04/step-error", "a valid step failed: " + s); }
  }
  if (n > 1 && seen.switches > u64(n)) c.nontrivial = true;
}

// ================================================================ C11
static Op gen_wide(Rng &r, long slot) { // a declared half width beyond the profile: some rib counts have no radius
  Op o = gen_shell(r, slot, false); o.set("ly", o.d("ry") * r.uni(1.02, 2.5)).set("n", r.range(1, 2)); return o;
}
static Trace gen11(Rng &r, bool th) {
  GenOpt g; g.thorough = th; Trace t; bool wide = r.chance(0.2); Op sh = wide ? gen_wide(r, 0) : gen_shell(r, 0, r.chance(0.3)); t.push_back(sh); double R = sh.d("rx");
  Op m = gen_mesh(r, g, 0, R, V3()); m.set("build", "vec"); t.push_back(m); Op f = gen_flat(r, 0, V3()); t.push_back(f);
  int n = int(r.range(3, th ? 24 : 12)); bool two = !wide && r.chance(0.4); size_t from = t.size(); // often a second shell that differs in some parameters
  for (int i = 0; i < n; ++i) {
    if (r.chance(0.5)) { Op o("step"); put_pose(o, V3(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), R * r.uni(0.7, 1.05)), r.uni(-3, 3), r.chance(0.5) ? 0.0 : r.uni(-0.3, 0.3), r.uni(-3, 3)); o.set("s", 0L).set("g", r.chance(0.7) ? "m0" : "f0").set("method", r.chance(0.7) ? "geometric" : "sampling"); t.push_back(o); }
    Op o("resize"); double k = r.uni(); o.set("s", 0L).set("n", k < 0.08 ? 0L : k < 0.6 ? r.range(1, 12) : k < 0.85 ? r.range(13, 60) : k < 0.97 ? r.range(61, 400) : r.range(401, th ? 3000 : 900));
    if (r.chance(0.35)) o.set("fail", r.chance(0.6) ? r.range(1, 10) : r.range(1, 60)).set("burst", r.chance(0.8) ? 1L : r.range(2, 9)); t.push_back(o);
    if (r.chance(0.1)) { Op mv("move"); mv.set("s", 0L).set("x", r.uni(-1, 1)).set("y", 0L).set("z", r.uni(-1, 1)); t.push_back(mv); }
  }
  if (two) { for (size_t i = from; i < t.size(); ++i) if (t[i].has("s") && r.chance(0.5)) t[i].set("s", 1L); t.insert(t.begin() + long(r.chance(0.5) ? 1 : from + r.below(t.size() - from + 1)), sibling(r, sh, 1)); }
  return t;
}
static int profile(Shape const &s, size_t n) { // 1 every rib has a radius, 0 some rib has none, -1 too close to tell
  if (n == 0) return 0; double w = 2 * s.ly / double(n); int r = 1;
  for (size_t i = 0; i < n; ++i) { double y = std::fabs(-s.ly + (double(i) + 0.5) * w) / s.ry; if (y > 1 + 1e-9) return 0; if (y > 1 - 1e-9) r = -1; }
  return r;
}
static void check_tiling(Ctx &c, lib::Shell const &s, Shape const &sh, size_t n, Pose const *at) {
  if (s.size() != n) violate("C11/count", fmt("the shell has %zu ribs, expected %zu", s.size(), n));
  std::vector<ref::Rib> w = ref::ribs(sh, n); double edge = -sh.ly;
  for (size_t i = 0; i < n; ++i) {
    ref::Rib g = s.rib(i); double a = s.rib_angle(i); V3 ce = s.rib_center(i); c.oracle_checks += 5; double tol = 1e-12 * double(n) * sh.ly + 1e-12;
    if (!(std::fabs(g.W - w[i].W) <= 1e-9 * w[i].W)) violate("C11/width", fmt("rib %zu of %zu is %.12g wide, expected %.12g", i, n, g.W, w[i].W));
    if (!(std::fabs(g.y - w[i].y) <= tol)) violate("C11/place", fmt("rib %zu of %zu sits at %.12g, expected %.12g", i, n, g.y, w[i].y));
    if (!(std::fabs(g.y - g.W / 2 - edge) <= 1e-9 * sh.ly * double(n) + tol)) violate("C11/tiling", fmt("rib %zu of %zu leaves a gap or an overlap", i, n));
    edge = g.y + g.W / 2;
    double yr = std::fabs(w[i].y) / sh.ry, near = std::max(1e-12, 1 - yr), rt = 1e-8 + 1e-11 / near; // the profile is steep at the shoulder
    if (!(std::fabs(g.R - w[i].R) <= rt * sh.rx)) violate("C11/radius", fmt("rib %zu of %zu has radius %.12g, the profile says %.12g", i, n, g.R, w[i].R));
    if (!(std::fabs(a - ref::angle(sh, w[i].y)) <= 1e-6 + 1e-9 / near)) violate("C11/angle", fmt("rib %zu of %zu has angle %.12g, the profile says %.12g", i, n, a, ref::angle(sh, w[i].y)));
    (void)ce; (void)at;
  }
  if (!(std::fabs(edge - sh.ly) <= 1e-9 * sh.ly * double(n) + 1e-12)) violate("C11/tiling", fmt("%zu ribs end at %.12g, the shell at %.12g", n, edge, sh.ly));
  // the surface the ribs are cut from: at the ribs, between them, at its edge and beyond
  std::vector<double> e = s.surface(); if (e[0] != sh.rx || e[1] != sh.ly || e[2] != sh.ly) violate("C11/surface", fmt("the surface is said to be %.12g high and %.12g, %.12g wide, expected %.12g and %.12g", e[0], e[1], e[2], sh.rx, sh.ly));
  static double const share[] = {0, 0.011, -0.37, 0.5, -0.5, 0.77, -0.93, 0.999, -1, 1, 1.0001, -1.0001, 1.7, -3}; c.oracle_checks += 16;
  for (double f : share) {
    double y = f * sh.ly; bool in = std::fabs(y) <= sh.ly; if (s.within(y) != in) violate("C11/surface", fmt("y %.12g is said to be %s a surface of half width %.12g", y, in ? "outside" : "inside", sh.ly));
    std::vector<double> v; Res r = lib::guarded(0, 0, [&] { v = s.surface(y); }); if (r.ok != in) violate("C11/surface", fmt("the surface of half width %.12g %s at y %.12g", sh.ly, r.ok ? "has a radius" : "has no radius", y));
    double yr = std::fabs(y) / sh.ry, near = 1 - yr; if (!in || near < 1e-6) continue;
    if (!(std::fabs(v[0] - ref::radius(sh, y)) <= (1e-8 + 1e-11 / near) * sh.rx)) violate("C11/surface", fmt("the surface has radius %.12g at %.12g, the profile says %.12g", v[0], y, ref::radius(sh, y)));
    double a = ref::angle(sh, y); if (!(std::fabs(v[2] - a) <= 1e-6 + 1e-9 / near)) violate("C11/surface", fmt("the surface has angle %.12g at %.12g, the profile says %.12g", v[2], y, a));
    if (!(std::fabs(v[1] - std::tan(a)) <= (1e-6 + 1e-9 / near) * (1 + v[1] * v[1]))) violate("C11/surface", fmt("the surface has slope %.12g at %.12g, the profile says %.12g", v[1], y, std::tan(a)));
  }
  for (size_t i : {size_t(0), n / 2, n - 1}) { ref::Rib g = s.rib(i); if (std::fabs(g.y) > sh.ly) continue; std::vector<double> v = s.surface(g.y); double near = std::max(1e-12, 1 - std::fabs(g.y) / sh.ry), tol = 1e-9 + 1e-12 / near; if (!(std::fabs(v[0] - g.R) <= tol * sh.rx) || !(std::fabs(v[2] - s.rib_angle(i)) <= tol)) violate("C11/surface", fmt("rib %zu of %zu and the surface at its place differ", i, n)); }
}
static void exec11(Trace const &t, Ctx &c) {
  std::map<long, std::shared_ptr<ShellSlot>> sh; lib::Mesh mesh; std::unique_ptr<lib::Flat> flat;
  for (auto &op : t) {
    long k = op.i("s", 0); auto it = sh.find(k);
    if (op.n == "mesh") mesh = lib::Mesh(make_ground(op));
    else if (op.n == "flat") flat.reset(new lib::Flat(op.d("mu"), V3(op.d("ox"), op.d("oy"), op.d("oz")), V3(op.d("nx"), op.d("ny"), op.d("nz", 1))));
    else if (op.n == "shell") {
      Shape q = shape_of(op); size_t n = size_t(op.i("n", 5)); int ok = profile(q, n); sh.erase(k); std::shared_ptr<ShellSlot> s;
      Res r = lib::guarded(op.i("fail", 0), 1, [&] { s.reset(new ShellSlot{lib::Shell(n, q.rx, q.mx, q.ry, q.my, q.ly), q, n}); });
      if (r.failed) { if (!r.ok) continue; } else { if (ok == 1 && !r.ok) violate("C11/shell-build", "a valid shell was refused: " + r.what); if (ok == 0 && r.ok) violate("C11/accepted", fmt("a shell of %zu ribs beyond its profile was accepted", n)); if (!r.ok) continue; }
      sh[k] = s; check_tiling(c, s->s, q, n, nullptr); snapshot(s->s, false); c.ev(fmt("shell of %zu ribs", n));
    } else if (it == sh.end()) continue;
    else if (op.n == "move") it->second->s.translate(V3(op.d("x"), op.d("y"), op.d("z")));
    else if (op.n == "step") {
      if (op.s("g") != "m0" && !flat) continue; bool v = false; Pose ps = pose_of(op); Res r = lib::guarded(0, 0, [&] { v = op.s("g", "m0") == "m0" ? it->second->s.setup(mesh, ps, op.s("method", "geometric")) : it->second->s.setup(*flat, ps, op.s("method", "geometric")); });
      if (!r.ok) violate("C11/step-error", "a valid step failed: " + r.what); c.st(v ? "steps_contact" : "steps_clear"); std::vector<double> s = snapshot(it->second->s, v, false); log_values(c, s); if (s.size() != 49 + 29 * it->second->n) violate("C11/count", "the getters do not cover the ribs"); c.ev("step"); c.simtime += 0.001;
    } else if (op.n == "resize") {
      ShellSlot &s = *it->second; long n = op.i("n", 5), fail = op.i("fail", 0); std::vector<double> before = snapshot(s.s, false);
      int ok = profile(s.sh, size_t(std::max(0L, n))); Res r = lib::guarded(fail, op.i("burst", 1), [&] { s.s.resize(size_t(n)); }); if (r.failed) c.st("fault_alloc", u64(r.failed)); ++c.oracle_checks;
      c.ev(fmt("resize %zu -> %ld: %s", s.n, n, r.ok ? "ok" : "failed"));
      if (r.ok && ok == 0) violate("C11/accepted", n <= 0 ? std::string("a resize to no ribs was accepted") : fmt("a resize to %ld ribs was accepted although the profile ends before the outermost rib", n));
      if (!r.ok && ok == 1 && !r.failed) violate("C11/refused", "a valid resize failed: " + r.what);
      if (r.ok) { s.n = size_t(n); c.st("resizes_ok"); c.nontrivial = true; }
      else { c.st(r.failed ? "resizes_failed_oom" : "resizes_refused"); if (!r.failed) c.st(n <= 0 ? "fault_no_ribs" : "fault_undefined_profile"); std::vector<double> after = snapshot(s.s, false); size_t w = 0; if (!same_bits(before, after, &w)) violate("C11/failed-resize", "a failed resize changed " + where_in_snapshot(w, s.n)); c.nontrivial = true; }
      check_tiling(c, s.s, s.sh, s.n, nullptr); snapshot(s.s, false);
    }
  }
}

// ================================================================ S-function interface
struct SfunCase { double n, rx, mx, ry, my, ly, h, mu; std::vector<Tri> tris; bool obj; std::string path; bool good; std::string kind; };
static void put_env(std::string const &p) { setenv("ENVE_GROUND_PATH", p.c_str(), 1); }
static SfunCase sfun_case(Op const &op, long no) {
  SfunCase s; s.n = op.d("n", 5); s.rx = op.d("rx"); s.mx = op.d("mx"); s.ry = op.d("ry"); s.my = op.d("my"); s.ly = op.d("ly"); s.h = op.d("h"); s.mu = op.d("fmu", 0.7); s.obj = op.s("fmt") == "obj"; s.kind = op.s("bad"); s.good = s.kind.empty();
  s.tris = make_ground(op); if (s.obj) for (auto &t : s.tris) t.mu = 1.0; if (s.tris.empty()) s.good = false;
  s.path = scratch() + fmt("/s%04ld.", no) + (s.obj ? "obj" : "rdf"); std::string txt = s.obj ? obj_text(s.tris, op.u("style"), true) : rdf_text(s.tris, op.u("style"), true);
  if (s.kind == "content") { txt += s.obj ? "f 1 2 99999999\n" : "[ELEMENTS]\n0 1 abc 1\n"; }
  if (s.kind == "empty") txt = "";
  if (s.kind == "ext") { s.path += ".txt"; }
  if (s.kind != "missing") put_file(s.path, txt);
  if (s.kind == "noenv") unsetenv("ENVE_GROUND_PATH"); else if (s.kind == "shortenv") put_env("ab"); else put_env(s.path);
  if (s.kind == "ribs") s.n = 0;
  if (s.kind == "profile") { s.ly = s.ry * 1.9; s.n = 7; }
  if (s.kind == "friction") s.mu = -0.5;
  double nan = std::numeric_limits<double>::quiet_NaN();
  if (s.kind == "friction-nan") s.mu = nan;
  if (s.kind == "radius-nan") s.rx = nan;
  if (s.kind == "ribs-huge") s.n = 1e18;
  return s;
}
static Res sfun_init(SfunCase const &s, long fail, long burst = 1) { return lib::guarded(fail, burst, [&] { lib::Sfun::init(s.n, s.rx, s.mx, s.ry, s.my, s.ly, s.h, s.mu); }); }
struct Shadow { lib::Mesh m; lib::Flat f; lib::Shell s; };
static std::unique_ptr<Shadow> shadow(SfunCase const &s) { return std::unique_ptr<Shadow>(new Shadow{lib::Mesh(s.tris), lib::Flat(s.mu, V3(0, 0, s.h), V3(0, 0, 1)), lib::Shell(size_t(s.n), s.rx, s.mx, s.ry, s.my, s.ly)}); }
static void hub_of(Pose const &p, double (&h)[16]) { V3 c[4] = {p.ex, p.ey, p.ez, p.o}; for (int i = 0; i < 4; ++i) { h[4 * i] = c[i].x; h[4 * i + 1] = c[i].y; h[4 * i + 2] = c[i].z; h[4 * i + 3] = i == 3; } }
static void fill_bus(lib::Sfun::Bus &b, u64 seed) { double *d = (double *)&b; size_t n = sizeof b / 8; Rng r(seed); int m = int(seed % 5); for (size_t i = 0; i < n; ++i) d[i] = m == 4 ? (r.chance(0.6) ? std::numeric_limits<double>::quiet_NaN() : r.uni(-10, 10)) : m == 0 ? std::numeric_limits<double>::quiet_NaN() : m == 1 ? 0 : m == 2 ? 12345.5 : r.uni(-1e3, 1e3); }
static bool eqd(double a, double b) { return a == b || (a != a && b != b); }
static bool frame_is(double const *f, Pose const &p) { double h[16]; hub_of(p, h); for (int i = 0; i < 16; ++i) if (!eqd(f[i], h[i])) return false; return true; }
static void check_bus(Ctx &c, lib::Sfun::Bus const &b, Shadow &sh, Pose const &ps, bool geo, bool onflat, std::string const &tag) {
  std::string m = geo ? "geometric" : "sampling"; bool in = true; if (onflat) sh.s.setup(sh.f, ps, m); else { in = sh.s.setup(sh.m, ps, m); if (!in) sh.s.setup(sh.f, ps, m); }
  size_t n = sh.s.size(); c.oracle_checks += 4 + n; c.st(onflat ? "bus_flat" : in ? "bus_mesh" : "bus_backup_flat");
  if (!eqd(b.InMesh, in ? 1 : 0)) violate(tag + "/in-mesh", fmt("the in-mesh flag is %g, the %s", b.InMesh, onflat ? "plane is selected" : in ? "mesh is touched" : "mesh is not touched"));
  Out o = sh.s.out(); if (!frame_is(b.ShellAffine, sh.s.affine())) violate(tag + "/shell-frame", "the shell contact frame on the bus is not the shell's");
  if (!eqd(b.ShellRho, o.depth)) violate(tag + "/shell-depth", fmt("the shell depth on the bus is %.17g, the shell reports %.17g", b.ShellRho, o.depth));
  if (!eqd(b.ShellFriction, o.fr)) violate(tag + "/shell-friction", fmt("the shell friction on the bus is %.17g, the shell reports %.17g", b.ShellFriction, o.fr));
  for (size_t i = 0; i < 20; ++i) {
    if (i < n) { Out q = sh.s.out(i); if (!frame_is(b.RibsAffine + 16 * i, sh.s.affine(i))) violate(tag + "/rib-frame", fmt("the contact frame of rib %zu on the bus is not the shell's", i)); if (!eqd(b.RibsRho[i], q.depth)) violate(tag + "/rib-depth", fmt("the depth of rib %zu on the bus is %.17g, the shell reports %.17g", i, b.RibsRho[i], q.depth)); if (!eqd(b.RibsFriction[i], q.fr)) violate(tag + "/rib-friction", fmt("the friction of rib %zu on the bus is %.17g, the shell reports %.17g", i, b.RibsFriction[i], q.fr)); }
    else { bool nan = b.RibsRho[i] != b.RibsRho[i] && b.RibsFriction[i] != b.RibsFriction[i]; for (int k = 0; k < 16; ++k) nan = nan && b.RibsAffine[16 * i + size_t(k)] != b.RibsAffine[16 * i + size_t(k)]; if (!nan) violate(tag + "/unused-slot", fmt("slot %zu has no rib and does not hold NaN", i)); }
  }
}
static void log_bus(Ctx &c, lib::Sfun::Bus const &b) { double const *d = (double const *)&b; for (size_t i = 0; i < sizeof b / 8; ++i) c.log.add(d[i]); }
static Op gen_session(Rng &r, bool th) {
  GenOpt g; g.thorough = th; Op sh = gen_shell(r, 0, r.chance(0.3)); Op m = gen_mesh(r, g, 0, sh.d("rx"), V3()); Op o("init"); for (auto &p : m.kv) if (p.first != "build" && p.first != "m") o.set(p.first, p.second); if (o.s("kind") == "soup") o.set("nsoup", 1L);
  // "n" is the rib count here: soups keep their own default count
  for (auto k : {"rx", "mx", "ry", "my", "ly"}) o.set(k, sh.s(k)); o.set("n", r.chance(0.1) ? r.range(21, 30) : r.chance(0.1) ? 20L : r.range(1, 20)); o.set("h", r.uni(-0.2, 0.1)).set("fmu", r.chance(0.5) ? r.uni(0, 1.5) : r.chance(0.1) ? 0.0 : std::round(r.uni(0, 1.5) * 64) / 64).set("fmt", r.chance(0.3) ? "obj" : "rdf").set("style", r.below(256)); return o;
}
static Op gen_out(Rng &r, double R) {
  Op s("out"); V3 p(r.uni(-0.4, 0.4), r.uni(-0.4, 0.4), R * r.uni(0.75, 1.05)); if (r.chance(0.25)) p.x += r.uni(3, 50); put_pose(s, p, r.uni(-3, 3), r.chance(0.5) ? r.uni(-0.3, 0.3) : 0.0, r.uni(-3, 3)); s.set("method", r.chance(0.6) ? 0L : 1L).set("flat", r.chance(0.7) ? 0L : 1L).set("fill", r.next() >> 2); return s;
}
static Op gen_out(Rng &r, double R, Op const &was) { // the next call may keep the pose, or parts of it
  Op s = gen_out(r, R); if (was.n != "out" || r.chance(0.5)) return s;
  static char const *keys[] = {"x", "y", "z", "yaw", "cam", "pit"}; int m = int(r.below(6)); for (int i = 0; i < 6; ++i) if (m < 2 || (m == 2 ? i < 3 : m == 3 ? i >= 3 : r.chance(0.7))) s.set(keys[i], was.s(keys[i]));
  if (m == 1) for (int i = 0; i < 6; ++i) if (r.chance(0.4)) s.set(keys[i], s.d(keys[i]) + r.uni(-1, 1) * r.logu(1e-6, 0.02)); // creeping
  if (r.chance(0.6)) s.set("method", was.s("method")); if (r.chance(0.6)) s.set("flat", was.s("flat"));
  if (r.chance(0.01)) s.set("times", r.chance(0.7) ? r.range(2, 40) : r.range(200, 400)); return s;
}
// ---- C12
static Trace gen12(Rng &r, bool th) {
  Trace t; int sess = r.chance(0.7) ? 1 : 2; Op was, prev;
  for (int q = 0; q < sess; ++q) {
    Op o = gen_session(r, th); if (q && r.chance(0.5)) o = sibling(r, was, 0); was = o; t.push_back(o); int n = int(r.range(2, th ? 24 : 12));
    for (int i = 0; i < n; ++i) { Op s = gen_out(r, o.d("rx"), prev); prev = s; if (r.chance(0.12)) { static double const badm[] = {2, -1, 0.5, 1e9}; s.set(r.chance(0.5) ? "method" : "flat", badm[r.below(4)]); } else if (r.chance(0.15)) s.set("fail", r.range(1, 40)); t.push_back(s); }
    if (r.chance(0.7)) { t.push_back(Op("end")); if (r.chance(0.15)) t.push_back(gen_out(r, o.d("rx"))); }
  }
  return t;
}
static void exec12(Trace const &t, Ctx &c) {
  std::unique_ptr<Shadow> sh; long no = 0; lib::Sfun::Bus b; fill_bus(b, 3); struct End { ~End() { try { lib::Sfun::end(); } catch (...) {} } } end_it;
  for (auto &op : t) {
    if (op.n == "init") { SfunCase s = sfun_case(op, no++); if (s.tris.empty()) { del_file(s.path); continue; } Res r = sfun_init(s, 0); del_file(s.path); if (!r.ok) violate("C12/init", "a valid start failed: " + r.what); sh = shadow(s); c.ev("start"); }
    else if (op.n == "end") { lib::Sfun::end(); sh.reset(); c.ev("end"); }
    else if (op.n == "out" && !sh) {
      Pose ps = pose_of(op); double hub[16]; hub_of(ps, hub); fill_bus(b, op.u("fill", 3)); Res r = lib::guarded(0, 0, [&] { lib::Sfun::out(hub, b, op.d("method"), op.d("flat")); }); ++c.oracle_checks; c.st("fault_no_session"); c.ev("out without a session"); if (r.ok) violate("C12/accepted", "an output call without a session was accepted");
    } else if (op.n == "out" && sh) {
      Pose ps = pose_of(op); double hub[16]; hub_of(ps, hub); double me = op.d("method"), fl = op.d("flat"); bool valid = (me == 0 || me == 1) && (fl == 0 || fl == 1); fill_bus(b, op.u("fill", 3));
      if (long k = op.i("times", 0)) { if (valid) { Res q = lib::guarded(0, 0, [&] { for (long i = k; i > 0; --i) { double near[16]; Pose pn = ps; pn.o.x -= 1e-7 * double(i); hub_of(pn, near); lib::Sfun::out(near, b, me, fl); } }); if (!q.ok) violate("C12/refused", "a valid output call failed: " + q.what); c.st("crawls"); fill_bus(b, op.u("fill", 3)); } }
      Res r = lib::guarded(op.i("fail", 0), 1, [&] { lib::Sfun::out(hub, b, me, fl); }); if (r.failed) c.st("fault_alloc", u64(r.failed)); ++c.oracle_checks; c.simtime += 0.001; c.ev(fmt("out: %s", r.ok ? "ok" : "failed"));
      if (!valid) { c.st("fault_bad_call"); if (r.ok) violate("C12/accepted", fmt("an output call with method %g and selector %g was accepted", me, fl)); continue; }
      if (!r.ok && !r.failed) violate("C12/refused", "a valid output call failed: " + r.what);
      if (!r.ok) { c.st("out_failed_oom"); continue; }
      check_bus(c, b, *sh, ps, me == 0, fl == 1, "C12"); log_bus(c, b); c.st("outs"); c.nontrivial = true;
    }
  }
}
// ---- C13
static Trace gen13(Rng &r, bool th) {
  Trace t; int n = int(r.range(3, th ? 16 : 9)); double R = 0.3; Op last, prev;
  for (int i = 0; i < n; ++i) {
    double u = r.uni();
    if (i == 0 || u < 0.45) {
      Op o = gen_session(r, th); if (o.s("kind") == "hf") o.set("nx", r.range(1, 6)).set("ny", r.range(1, 5)); R = o.d("rx"); if (!last.n.empty() && r.chance(0.3)) o = r.chance(0.5) ? last : sibling(r, last, 0); 
      static char const *bad[] = {"content", "empty", "ext", "missing", "noenv", "shortenv", "ribs", "profile", "friction", "friction-nan", "radius-nan", "ribs-huge"}; double v = r.uni(); if (v < 0.4) o.set("bad", bad[r.below(12)]); else if (v < 0.6) { o.set("fail", r.chance(0.3) ? r.range(1, 20) : long(r.logu(1, 900))).set("burst", r.chance(0.7) ? 1L : r.range(2, 30)); } else if (v < 0.68) o.set("eio", r.range(0, 1500)); else { last = o; }
      t.push_back(o);
    } else if (u < 0.72) { Op s = gen_out(r, R, prev); prev = s; if (r.chance(0.1)) s.set("method", 7L); else if (r.chance(0.1)) s.set("fail", r.range(1, 20)); t.push_back(s); }
    else t.push_back(Op("end"));
  }
  if (r.chance(0.5)) t.push_back(Op("end")); if (r.chance(0.3)) t.push_back(Op("end"));
  return t;
}
struct Round13 { long leaked = 0, bytes = 0; };
static Round13 round13(Trace const &t, Ctx &c, bool judge) {
  std::unique_ptr<Shadow> sh; long no = 0; long base = lib_live(), base_bytes = lib_bytes(); bool active = false, maybe = false; lib::Sfun::Bus b; long shadow_blocks = 0; Round13 res;
  auto leak = [&] { long l = lib_live() - base - shadow_blocks; return l; };
  try {
    for (auto &op : t) {
      if (op.n == "init") {
        SfunCase s = sfun_case(op, no++); IoPlan io; io.eio_read_at = op.i("eio", -1); io_arm(io); Res r = sfun_init(s, op.i("fail", 0), op.i("burst", 1)); IoSeen seen = io_disarm(); del_file(s.path);
        bool fault = r.failed || seen.eios || !s.good; c.ev(fmt("start (%s): %s", s.kind.empty() ? "valid" : s.kind.c_str(), r.ok ? "ok" : "failed")); ++c.oracle_checks;
        if (r.failed) c.st("fault_alloc", u64(r.failed)); if (seen.eios) c.st("fault_read_error"); if (!s.kind.empty()) c.st("fault_start_" + s.kind);
        if (r.ok && (!s.good || seen.eios)) violate("C13/accepted", "a start that has to fail was accepted: " + (s.kind.empty() ? std::string("empty mesh or read error") : s.kind));
        if (!r.ok && !fault) violate("C13/refused", "a valid start failed: " + r.what);
        if (r.ok) { if (sh) { long l0 = lib_live(); sh.reset(); shadow_blocks -= l0 - lib_live(); } long l0 = lib_live(); sh = shadow(s); shadow_blocks += lib_live() - l0; active = true; maybe = false; c.st("starts_ok"); }
        else { c.st("starts_failed"); c.nontrivial = true; if (active) maybe = true; } // the session that was active is either still there as it was, or gone
      } else if (op.n == "out" && !active) {
        Pose ps = pose_of(op); double hub[16]; hub_of(ps, hub); fill_bus(b, op.u("fill", 3)); Res r = lib::guarded(0, 0, [&] { lib::Sfun::out(hub, b, op.d("method"), op.d("flat")); }); c.ev(fmt("out without a session: %s", r.ok ? "ok" : "refused")); ++c.oracle_checks; c.st("fault_no_session"); c.nontrivial = true;
        if (r.ok) violate("C13/no-session", "an output call without a session was accepted");
      } else if (op.n == "out" && sh && active) {
        Pose ps = pose_of(op); double hub[16]; hub_of(ps, hub); double me = op.d("method"), fl = op.d("flat"); fill_bus(b, op.u("fill", 3)); Res r = lib::guarded(op.i("fail", 0), 1, [&] { lib::Sfun::out(hub, b, me, fl); }); c.ev(fmt("out: %s", r.ok ? "ok" : "failed"));
        if (r.failed) c.st("fault_alloc", u64(r.failed)); bool valid = me == 0 || me == 1;
        if (maybe && valid && !r.failed) { c.st(r.ok ? "sessions_kept" : "sessions_dropped"); maybe = false; if (!r.ok) { active = false; continue; } }
        if (valid && !r.ok && !r.failed) violate("C13/out", "an output call failed: " + r.what);
        long l0 = lib_live(); if (r.ok && valid) { check_bus(c, b, *sh, ps, me == 0, fl == 1, "C13"); log_bus(c, b); c.st("outs"); } shadow_blocks += lib_live() - l0;
      } else if (op.n == "end") {
        Res r = lib::guarded(0, 0, [&] { lib::Sfun::end(); }); if (!r.ok) violate("C13/end", "ending failed: " + r.what); c.st(active ? "ends" : "ends_without_session"); active = maybe = false; c.ev("end"); ++c.oracle_checks; c.nontrivial = true;
        if (sh) { long l0 = lib_live(); sh.reset(); shadow_blocks -= l0 - lib_live(); }
        long l = leak(); if (l > res.leaked) { res.leaked = l; }
      }
    }
  } catch (...) { try { lib::Sfun::end(); } catch (...) {} throw; }
  lib::Sfun::end(); sh.reset(); long l = lib_live() - base; if (l > res.leaked) res.leaked = l; res.bytes = lib_bytes() - base_bytes; (void)judge; return res;
}
static void exec13(Trace const &t, Ctx &c) {
  Round13 a = round13(t, c, false); if (a.leaked <= 0 && a.bytes <= 0) return;
  std::map<std::string, u64> none; Ctx q; q.stats = &none; Round13 b = round13(t, q, true);
  if (b.leaked > 0) violate("C13/leak", fmt("%ld blocks allocated by the sessions are still there after their end, and %ld more each time the sequence is repeated", a.leaked, b.leaked));
  long more = 0; for (int k = 0; k < 4; ++k) more += round13(t, q, true).bytes; // blocks that grow
  if (more > 0) violate("C13/leak", fmt("%ld bytes allocated by the sessions are still there after their end, and %ld more after the sequence was repeated", a.bytes, more));
}

// ================================================================ C14
static char const *calls14[] = {"mesh-vec", "mesh-rdf", "mesh-obj", "mesh-load", "mesh-copy", "mesh-build", "mesh-query", "mesh-print", "shell-new", "shell-resize", "step-mesh", "step-mesh", "step-flat", "lists", "shell-print", "tree-build", "tree-pairs", "coll-build", "coll-query", "sfun-start", "sfun-out"};
static Trace gen14(Rng &r, bool th) {
  GenOpt g; g.thorough = th; Trace t; Op sh = gen_shell(r, 0, r.chance(0.3)); if (sh.i("n") > 14) sh.set("n", r.range(1, 14)); bool strip = r.chance(0.05); if (strip) sh.set("n", r.range(1, 3)); double R = sh.d("rx"); Op m = gen_mesh(r, g, 0, R, V3()); m.set("build", "vec"); if (strip) m.set("kind", "hf").set("nx", r.range(110, 180)).set("ny", r.range(6, 12)).set("d", R * r.uni(0.011, 0.018)).set("amp", r.logu(0.001, 0.02)).set("hole", 0.0); t.push_back(m); m = gen_mesh(r, g, 1, R, V3()); m.set("build", "vec"); if (m.s("kind") == "hf" && !th) m.set("nx", r.range(1, 6)).set("ny", r.range(1, 4)); t.push_back(m); t.push_back(gen_flat(r, 0, V3())); t.push_back(sh);
  int n = int(r.range(1, 4));
  for (int i = 0; i < n; ++i) {
    Op o("oom"); o.set("call", calls14[r.below(21)]).set("seed", r.next() >> 2).set("burst", r.chance(0.6) ? 1L : r.chance(0.5) ? r.range(2, 6) : 1000000L).set("style", r.below(256)).set("n", r.range(1, 16));
    put_pose(o, V3(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), R * r.uni(0.7, 1.05)), r.uni(-3, 3), r.chance(0.5) ? 0.0 : r.uni(-0.3, 0.3), r.uni(-3, 3)); o.set("method", r.chance(0.6) ? "geometric" : "sampling").set("r", r.uni(0.05, 1)); o.set("only", 0L);
    if (strip && r.chance(0.7)) { o.set("call", r.chance(0.8) ? "step-mesh" : "sfun-out").set("method", "geometric").set("burst", 1L); put_pose(o, V3(r.uni(-0.05, 0.05), r.uni(-0.03, 0.03), R * r.uni(0.1, 0.7)), r.uni(-0.03, 0.03), 0, r.uni(-3, 3)); } // ribs of more than two hundred candidates
    t.push_back(o);
  }
  return t;
}
static void round14(Trace const &t, Ctx &c, long &leaked, long &bytes) {
  long base = lib_live(), base_bytes = lib_bytes();
  {
    std::vector<Tri> g[2]; lib::Mesh ma[2], mb[2]; std::unique_ptr<lib::Flat> fl; std::unique_ptr<lib::Shell> sa, sb; Shape shp; long ribs = 5; long no = 0;
    for (auto &op : t) {
      if (op.n == "mesh") { long k = op.i("m") & 1; g[k] = make_ground(op); ma[k] = lib::Mesh(g[k]); mb[k] = lib::Mesh(g[k]); continue; }
      if (op.n == "flat") { fl.reset(new lib::Flat(op.d("mu"), V3(op.d("ox"), op.d("oy"), op.d("oz")), V3(op.d("nx"), op.d("ny"), op.d("nz", 1)))); continue; }
      if (op.n == "shell") { shp = shape_of(op); ribs = op.i("n", 5); sa.reset(); sb.reset(); sa.reset(new lib::Shell(size_t(ribs), shp.rx, shp.mx, shp.ry, shp.my, shp.ly)); sb.reset(new lib::Shell(size_t(ribs), shp.rx, shp.mx, shp.ry, shp.my, shp.ly)); continue; }
      if (op.n != "oom") continue;
      std::string call = op.s("call"); Rng q(op.u("seed", 1)); Pose ps = pose_of(op); Box bq = box_of(op); std::string method = op.s("method", "geometric"); long burst = op.i("burst", 1), n = op.i("n", 4);
      // act(first): run the call on the subject (false) or its twin (true) and leave what it observed in out
      std::vector<double> out; std::function<void(bool)> act; std::function<std::vector<double>()> probe = [] { return std::vector<double>(); };
      std::string path = scratch() + fmt("/m%04ld.", no++); lib::Mesh la, lb; std::unique_ptr<lib::Tree> ta, tb, tc; std::unique_ptr<lib::Coll> ca, cb, cc; bool sf = false; std::vector<std::string> files;
      auto boxes = [&](size_t k) { std::vector<Box> b; for (size_t i = 0; i < k; ++i) { V3 o(q.uni(), q.uni(), q.uni()); double z = q.chance(0.2) ? 0 : q.uni(0, 0.4); Box x; x.lo = o; x.hi = o + V3(z, z * q.uni(), z * q.uni()); b.push_back(x); } return b; };
      auto mesh_state = [&](lib::Mesh const &m) { std::vector<double> v = bits_of(m.tris()), w = answer(m, bq); v.insert(v.end(), w.begin(), w.end()); return v; };
      if (call == "mesh-vec") act = [&](bool) { lib::Mesh m(g[0]); out = mesh_state(m); };
      else if (call == "mesh-rdf" || call == "mesh-obj" || call == "mesh-load") {
        if (g[1].empty()) continue; bool obj = call == "mesh-obj" || (call == "mesh-load" && (op.u("seed") & 1)); path += obj ? "obj" : "rdf"; put_file(path, obj ? obj_text(g[1], op.u("style"), true) : rdf_text(g[1], op.u("style"), true)); files.push_back(path);
        bool ld = call == "mesh-load"; if (ld) { la = lib::Mesh(g[0]); lb = lib::Mesh(g[0]); }
        act = [&, obj, ld](bool tw) { lib::Mesh &m = tw ? lb : la; if (ld) { bool r = obj ? m.load(path, 0.5, identity()) : m.load(path, identity()); if (!r) throw std::runtime_error("load came back false"); out = mesh_state(m); } else { lib::Mesh k = obj ? lib::Mesh(path, 0.5, identity()) : lib::Mesh(path, identity()); out = mesh_state(k); } };
        if (ld) probe = [&] { return mesh_state(la); };
      }
      else if (call == "mesh-copy") { la = lib::Mesh(g[1]); lb = lib::Mesh(g[1]); act = [&](bool tw) { (tw ? lb : la).copy(ma[0]); out = mesh_state(tw ? lb : la); }; probe = [&] { return mesh_state(la); }; }
      else if (call == "mesh-build") { act = [&](bool tw) { (tw ? mb : ma)[0].build(); out = mesh_state((tw ? mb : ma)[0]); }; probe = [&] { return mesh_state(ma[0]); }; }
      else if (call == "mesh-query") { act = [&](bool tw) { out = answer((tw ? mb : ma)[0], bq); }; probe = [&] { return mesh_state(ma[0]); }; }
      else if (call == "mesh-print") { path += "txt"; act = [&](bool tw) { (tw ? mb : ma)[1].print(path); std::string s; get_file(path, s); Hash h; h.add(s); out = {double(h.h >> 12), double(s.size())}; }; files.push_back(path); probe = [&] { return mesh_state(ma[1]); }; }
      else if (call == "shell-new") act = [&](bool) { lib::Shell s(size_t(n), shp.rx, shp.mx, shp.ry, shp.my, shp.ly); out = snapshot(s, false, false); };
      else if (!sa) continue;
      else if (call == "shell-resize") { act = [&](bool tw) { (tw ? *sb : *sa).resize(size_t(n)); out = snapshot(tw ? *sb : *sa, false, false); }; probe = [&] { return snapshot(*sa, false, false); }; }
      else if (call == "step-mesh") { act = [&](bool tw) { lib::Shell &s = tw ? *sb : *sa; bool v = s.setup((tw ? mb : ma)[0], ps, method); out = snapshot(s, v, false); }; }
      else if (call == "step-flat") { if (!fl) continue; act = [&](bool tw) { lib::Shell &s = tw ? *sb : *sa; bool v = s.setup(*fl, ps, method); out = snapshot(s, v, false); }; }
      else if (call == "lists") { act = [&](bool tw) { lib::Shell::Lists l; (tw ? *sb : *sa).lists(op.u("seed") & 2 ? size_t(n) : 0, l); out = l.depth; out.insert(out.end(), l.area.begin(), l.area.end()); for (auto &x : l.p) out.push_back(x.x); for (auto &x : l.aff) out.push_back(x.ex.x); }; probe = [&] { return snapshot(*sa, false, false); }; }
      else if (call == "shell-print") { act = [&](bool tw) { std::string s = (tw ? *sb : *sa).print(); Hash h; h.add(s); out = {double(h.h >> 12)}; }; probe = [&] { return snapshot(*sa, false, false); }; }
      else if (call == "tree-build" || call == "tree-pairs") {
        std::vector<Box> b0 = boxes(size_t(q.range(0, 24))), b1 = boxes(size_t(q.range(0, 12))), b2 = boxes(size_t(q.range(0, 9))); ta.reset(new lib::Tree); tb.reset(new lib::Tree); tc.reset(new lib::Tree); tc->build(b1); ta->build(b2); tb->build(b2); bool bld = call == "tree-build"; if (!bld) { ta->build(b0); tb->build(b0); }
        act = [&, b0, bld](bool tw) { lib::Tree &x = tw ? *tb : *ta; if (bld) x.build(b0); std::vector<std::pair<long, long>> p; x.pairs(*tc, p); std::sort(p.begin(), p.end()); out.clear(); for (auto &y : p) { out.push_back(double(y.first)); out.push_back(double(y.second)); } };
        probe = [&] { std::vector<std::pair<long, long>> p; ta->pairs(*tc, p); return std::vector<double>(); };
      }
      else if (call == "coll-build" || call == "coll-query") {
        ca.reset(new lib::Coll); cb.reset(new lib::Coll); std::vector<Box> b = boxes(size_t(q.range(1, 20))); for (size_t i = 0; i < b.size(); ++i) for (lib::Coll *x : {ca.get(), cb.get()}) x->push(i % 3 == 0 ? lib::SEGMENT : i % 3 == 1 ? lib::TRIANGLE : lib::BALL, b[i].lo, b[i].hi, i % 3 == 2 ? V3(0.1, 0, 0) : V3(b[i].lo.x, b[i].hi.y + 0.1, b[i].lo.z), long(i));
        bool bld = call == "coll-build"; if (!bld) { ca->build(); cb->build(); } Box w; w.lo = V3(0.2, 0.2, 0.2); w.hi = V3(0.7, 0.7, 0.7);
        act = [&, bld, w](bool tw) { lib::Coll &x = tw ? *cb : *ca; if (bld) x.build(); std::vector<long> tg; bool v = x.query(w, tg); std::sort(tg.begin(), tg.end()); out.assign(tg.begin(), tg.end()); out.push_back(v); };
        probe = [&] { std::vector<long> x = ca->tags(); return std::vector<double>(x.begin(), x.end()); };
      }
      else if (call == "sfun-start" || call == "sfun-out") {
        if (g[1].empty()) continue; path += "rdf"; put_file(path, rdf_text(g[1], op.u("style"), true)); files.push_back(path); put_env(path); bool st = call == "sfun-start"; sf = true; double me = method == "geometric" ? 0 : 1, fsel = (op.u("seed") >> 3) & 1; if (!st) lib::Sfun::init(double(ribs), shp.rx, shp.mx, shp.ry, shp.my, shp.ly, 0, 0.7);
        act = [&, st, me, fsel](bool) { double hub[16]; hub_of(ps, hub); lib::Sfun::Bus b; fill_bus(b, 2); if (st) lib::Sfun::init(double(ribs), shp.rx, shp.mx, shp.ry, shp.my, shp.ly, 0, 0.7); lib::Sfun::out(hub, b, me, fsel); double *d = (double *)&b; out.assign(d, d + sizeof b / 8); };
      } else continue;
      // the result with memory available, on the twin
      Res r0 = lib::guarded(0, 0, [&] { act(true); }); if (!r0.ok) violate("C14/" + call, call + " failed with memory available: " + r0.what);
      std::vector<double> want = out; long only = op.i("only", 0), swept = 0; bool done = false; std::vector<double> before = probe();
      u64 a0 = alloc_calls(); (void)a0;
      for (long k = only ? only : 1; !done; ) {
        out.clear(); Res r = lib::guarded(k, burst, [&] { act(false); }); ++c.oracle_checks;
        if (!r.failed) { if (!r.ok) violate("C14/repeat", call + " fails after an earlier call ran out of memory: " + r.what); done = true; }
        else { ++swept; c.st("fault_alloc", u64(r.failed)); c.st("oom_" + call); c.nontrivial = true;
          if (r.ok) { c.st("oom_survived"); }
          else if (call != "shell-new") { std::vector<double> p = probe(); if (call == "mesh-load" || call == "mesh-copy" || call == "mesh-build" || call == "shell-resize") { size_t w; if (!same_bits(p, before, &w) && !same_bits(p, want, &w)) violate("C14/state", fmt("%s ran out of memory at allocation %ld and left the object in between", call.c_str(), k)); } } }
        size_t w = 0; if (r.ok && !same_bits(out, want, &w)) violate(r.failed ? "C14/wrong" : "C14/repeat", fmt("%s %s: value %zu is %.17g, expected %.17g", call.c_str(), r.failed ? "came back normally after running out of memory, with a wrong result" : "repeated after running out of memory gives another result", w, w < out.size() ? out[w] : -1, w < want.size() ? want[w] : -1));
        if (r.ok && (call == "mesh-load" || call == "mesh-copy" || call == "mesh-build" || call == "shell-resize")) before = want;
        if (only) { only = 0; k = 1 << 30; continue; } // replay of one failure, then the repetition
        if (k >= (1 << 29)) break;
        k += k < 40 ? 1 : 1 + long(q.below(1 + u64(k) / 6)); if (swept > 120) k = 1 << 30;
      }
      c.ev(fmt("%s: %ld allocation failures", call.c_str(), swept)); for (double x : want) c.log.add(x);
      for (auto &f : files) del_file(f); if (sf) lib::Sfun::end();
    }
  }
  leaked = lib_live() - base; bytes = lib_bytes() - base_bytes;
}
static void exec14(Trace const &t, Ctx &c) {
  long a = 0, ab = 0, b = 0, bb = 0; auto round = [&](Ctx &x, long &l, long &y) { try { round14(t, x, l, y); } catch (...) { try { lib::Sfun::end(); } catch (...) {} throw; } };
  round(c, a, ab); if (a <= 0 && ab <= 0) return;
  std::map<std::string, u64> none; Ctx q; q.stats = &none; round(q, b, bb);
  if (b > 0) violate("C14/leak", fmt("%ld blocks are still allocated after everything was destroyed, %ld more when the same is repeated", a, b));
  long more = 0; for (int k = 0; k < 4; ++k) { round(q, b, bb); more += bb; } // blocks that grow
  if (more > 0) violate("C14/leak", fmt("%ld bytes are still allocated after everything was destroyed, %ld more when the same is repeated", ab, more));
}

void add_shell(std::vector<Property> &v) {
  v.push_back(Property{"C04", "2-4 threads with their own shells, meshes and trees stepping, resizing, querying, loading and printing over one shared mesh and plane under a seeded scheduler that may preempt at every basic block and allocation, with allocation failures in single threads; each thread's results are compared bit for bit with a run alone; non-trivial if threads really interleaved", gen04, exec04});
  v.push_back(Property{"C11", "shells of varied profile resized 3-24 times to 0-3000 ribs with allocation failures and profiles that end before the edge, steps in between; after each, tiling, radii and angles are compared with the profile and failed resizes with the state before; non-trivial if a resize was made or refused", gen11, exec11});
  v.push_back(Property{"C12", "S-function sessions with 2-24 output calls over mesh, plane and back-up plane into buses filled with old values, with invalid selectors and allocation failures between; each bus is compared with a shadow shell; non-trivial if a call completed", gen12, exec12});
  v.push_back(Property{"C13", "sequences of S-function starts (valid, 12 kinds of refused, read errors, allocation failures), outputs and ends; live blocks are counted after every end; non-trivial if a session ended or a start failed", gen13, exec13});
  v.push_back(Property{"C14", "for 1-4 calls out of 20 kinds, the first, second, third ... allocation inside the call fails (also in bursts) until the call runs through; object state, repetition and live blocks are compared with a twin; non-trivial if a failure fired", gen14, exec14});
}
} // namespace sim
