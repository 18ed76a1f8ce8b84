// Ground files and box queries: C01 C02 C03 C15
#include <sys/stat.h>
#include <unistd.h>
#include "props.hpp"
#include <algorithm>
#include <cerrno>

namespace sim {
// ================================================================ texts and their corruptions
static std::vector<std::string> cut(std::string const &t) { std::vector<std::string> r; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size() - 1; r.push_back(t.substr(i, e - i + 1)); i = e + 1; } return r; }
static std::string glue(std::vector<std::string> const &l) { std::string o; for (auto &x : l) o += x; return o; }
struct Word { size_t at, len; };
static std::vector<Word> words(std::string const &l) { std::vector<Word> w; size_t i = 0; while (i < l.size()) { if (strchr(" \t\r\n", l[i])) { ++i; continue; } size_t j = i; while (j < l.size() && !strchr(" \t\r\n", l[j])) ++j; w.push_back(Word{i, j - i}); i = j; } return w; }
static std::string corrupt(std::string t, long kind, u64 seed, bool obj) {
  Rng r(seed); std::vector<std::string> l = cut(t); if (l.empty()) return t;
  auto data_line = [&]() -> size_t { for (int k = 0; k < 50; ++k) { size_t i = r.below(l.size()); auto w = words(l[i]); if (w.size() >= 4) return i; } return r.below(l.size()); };
  auto swap_word = [&](size_t i, size_t k, std::string const &by) { auto w = words(l[i]); if (w.empty()) return; Word q = w[k % w.size()]; l[i].replace(q.at, q.len, by); };
  size_t i = data_line(); auto w = words(l[i]); size_t k = r.below(std::max<size_t>(1, w.size()));
  switch (kind) {
  case 1: { static char const *j[] = {"abc", "--", "e5", ".", "x1", "nan", "inf", "0x10", "1e999", "1,5", "?", "\x01", "[", "NODES", "1.5x", "0,3", "2.0.0", "7-", "1e", "3;"}; swap_word(i, k, j[r.below(20)]); break; }
  case 2: if (!w.empty()) { Word q = w[k]; l[i].erase(q.at, q.len); } break;
  case 3: { size_t e = l[i].find_last_not_of("\r\n"); l[i].insert(e == std::string::npos ? 0 : e + 1, r.chance(0.5) ? " 1" : " extra"); break; }
  case 4: l.erase(l.begin() + long(i)); break;
  case 5: l.insert(l.begin() + long(i), l[i]); break;
  case 6: { std::string s = glue(l); s.erase(r.below(s.size()), 1); return s; }
  case 7: { std::string s = glue(l); s[r.below(s.size())] = r.chance(0.7) ? char(r.range(32, 126)) : char(r.below(256)); return s; }
  case 8: { static char const *j[] = {"\n", "  \n", "\r\n", "# a b c d\n", "% 1 2 3 4\n", "\t\n", "   # x\n"}; l.insert(l.begin() + long(r.below(l.size() + 1)), j[r.below(obj ? 4 : 7)]); break; }
  case 9: { std::string s = glue(l); s.resize(r.below(s.size() + 1)); return s; }
  case 10: std::swap(l[r.below(l.size())], l[r.below(l.size())]); break;
  case 11: { static char const *j[] = {"-1", "0", "1", "100000", "2147483647", "-7", "3", "5", "12", "40"}; swap_word(i, k, j[r.below(10)]); break; }
  case 12: { auto q = words(l[i]); if (!q.empty()) swap_word(i, q.size() - 1, r.chance(0.5) ? "-0.5" : "-1e-3"); break; }
  case 13: { size_t p = l[i].find(' '); if (p != std::string::npos) l[i][p] = '\t'; break; }
  case 14: if (!w.empty()) { std::string s = l[i].substr(w[k].at, w[k].len); if (isdigit((unsigned char)s[0])) l[i].replace(w[k].at, w[k].len, "+" + s); } break;
  case 15: for (size_t q = 0; q < l.size(); ++q) if (l[q].find("NODES") != std::string::npos || l[q].find("ELEMENTS") != std::string::npos) { if (r.chance(0.5)) { l.erase(l.begin() + long(q)); break; } } break;
  case 16: l.push_back(r.chance(0.5) ? "[OTHER]\n" : "junk\n"); break;
  case 17: l[i].insert(l[i].size() - 1, "\r"); break;
  case 18: swap_word(i, k, r.chance(0.3) ? "4294967296" : r.chance(0.4) ? "4294967297" : r.chance(0.5) ? "99999999999" : "1e400"); break;
  case 19: return "";
  case 20: { std::vector<std::string> m; for (auto &x : l) { auto q = words(x); if (obj ? (q.empty() || x[q[0].at] != 'f') : true) m.push_back(x); if (!obj && x.find("ELEMENTS") != std::string::npos) break; } l.swap(m); break; } // no element at all
  case 21: { // an element index one step outside the nodes the elements use
    std::vector<size_t> e; bool in = obj; long lo = 1L << 40, hi = -1;
    for (size_t q = 0; q < l.size(); ++q) { auto v = words(l[q]); if (!obj && l[q].find("ELEMENTS") != std::string::npos) { in = true; continue; } if (!in || v.size() < 4 || (obj && l[q][v[0].at] != 'f')) continue; bool num = true; for (size_t z = 1; z < 4 && num; ++z) num = isdigit((unsigned char)l[q][v[z].at]) != 0; if (num) e.push_back(q); }
    if (e.empty()) break;
    for (size_t q : e) { auto v = words(l[q]); for (size_t z = (obj ? 1 : 0); z < v.size() && z < (obj ? 4u : 3u); ++z) { long x = atol(l[q].substr(v[z].at, v[z].len).c_str()); lo = std::min(lo, x); hi = std::max(hi, x); } }
    size_t q = e[r.below(e.size())]; swap_word(q, r.below(3) + (obj ? 1 : 0), r.chance(0.25) ? (r.chance(0.9) ? std::to_string(((r.chance(0.8) ? 1L : -1L) << (r.chance(0.7) ? 32 : 33)) + r.range(lo, hi)) : std::string("18446744073709551616")) : std::to_string(r.chance(0.8) ? hi + 1 : lo - 1)); break; }
  default: break;
  }
  return glue(l);
}
struct FileCase { bool obj; std::string text; Pose pose; double mu; ref::Parsed want; };
static FileCase file_case(Op const &op) {
  FileCase f; f.obj = op.s("fmt", "rdf") == "obj"; std::vector<Tri> t = make_ground(op); bool share = op.i("share", 1) != 0; f.mu = op.d("omu", 0.8);
  f.text = f.obj ? obj_text(t, op.u("style", 0), share) : rdf_text(t, op.u("style", 0), share);
  for (int k = 1; k <= 4; ++k) { std::string a = "k" + std::to_string(k); if (op.i(a, 0)) f.text = corrupt(f.text, op.i(a), op.u("r" + std::to_string(k)), f.obj); }
  if (op.i("pad", 0)) { size_t q = size_t(op.i("pad")); f.text += "\n"; while (f.text.size() % q) f.text += "\n"; } // files of one length
  f.pose = make_pose(V3(op.d("px"), op.d("py"), op.d("pz")), op.d("pyaw"), op.d("pcam"), op.d("ppit"));
  if (!op.has("pyaw")) { f.pose.ex = V3(1, 0, 0); f.pose.ey = V3(0, 1, 0); f.pose.ez = V3(0, 0, 1); }
  f.want = f.obj ? ref::parse_obj(f.text, f.mu, f.pose) : ref::parse_rdf(f.text, f.pose); return f;
}
static IoPlan io_of(Op const &op) {
  IoPlan io; io.chunk = int(op.i("chunk", 0)); io.chunk_seed = op.u("cs", 0); io.eintr_every = int(op.i("eintr", 0)); io.open_errno = int(op.i("open", 0)); io.eio_read_at = op.i("eio", -1); io.trunc_at = op.i("trunc", -1);
  io.write_fail_at = op.i("wfail", -1); io.write_errno = int(op.i("werr", ENOSPC)); io.close_errno = int(op.i("cerr", 0)); io.rename_errno = int(op.i("rerr", 0)); return io;
}
static void io_stats(Ctx &c, IoSeen const &s) {
  if (s.shorts) c.st("fault_short_io", u64(s.shorts)); if (s.eintrs) c.st("fault_eintr", u64(s.eintrs)); if (s.eios) c.st("fault_read_error"); if (s.truncs) c.st("fault_lost_tail");
  if (s.open_fails) c.st("fault_open"); if (s.write_fails) c.st("fault_write_error"); if (s.close_fails) c.st("fault_close_error"); if (s.rename_fails) c.st("fault_rename", u64(s.rename_fails));
}
static void gen_file(Rng &r, Op &o, GenOpt const &g, bool pose) {
  Op m = gen_mesh(r, g, 0, 0.4, V3()); for (auto &p : m.kv) if (p.first != "build" && p.first != "style" && p.first != "chunk" && p.first != "eintr") o.set(p.first, p.second);
  bool obj = r.chance(0.4); o.set("fmt", obj ? "obj" : "rdf").set("style", r.below(256)).set("share", r.chance(0.7) ? 1L : 0L);
  if (obj) o.set("omu", r.chance(0.5) ? r.uni(0, 1.5) : r.chance(0.1) ? 0.0 : std::round(r.uni(0, 1.5) * 64) / 64);
  if (o.s("kind") == "hf" && r.chance(0.4)) o.set("nx", r.range(1, 4)).set("ny", r.range(1, 3)); // small files meet more faults per byte
  if (pose && r.chance(0.4)) {
    o.set("px", r.uni(-50, 50)).set("py", r.uni(-50, 50)).set("pz", r.uni(-5, 5)).set("pyaw", r.chance(0.3) ? 0.0 : r.uni(-3, 3)).set("pcam", r.chance(0.5) ? 0.0 : r.uni(-1.5, 1.5)).set("ppit", r.chance(0.5) ? 0.0 : r.uni(-1.5, 1.5));
    if (r.chance(0.3)) { int m = int(r.below(3)); for (char const *k : {"px", "py", "pz"}) if (m == 0 || r.chance(0.6)) o.set(k, 0.0); if (m == 1) o.set("pyaw", 0.0).set("pcam", 0.0).set("ppit", 0.0); } // turns alone, moves along some axes alone
  }
}
static void gen_name(Rng &r, Op &o, long fam) { if (r.chance(0.5)) o.set("name", r.chance(0.6) ? fam : r.chance(0.8) ? long(r.below(9)) : r.range(10, 240)); if (r.chance(0.3)) o.set("pad", r.chance(0.5) ? 4096L : 512L); }
static void gen_chunks(Rng &r, Op &o) { if (r.chance(0.5)) o.set("chunk", r.chance(0.4) ? r.range(1, 9) : r.range(10, 600)); if (r.chance(0.4)) o.set("cs", r.next() >> 2); if (r.chance(0.3)) o.set("eintr", r.range(2, 6)); }
static void gen_corrupt(Rng &r, Op &o, double p2) { int k = 1; o.set("k1", r.range(1, 21)).set("r1", r.next() >> 2); while (k < 4 && r.chance(p2)) { ++k; o.set("k" + std::to_string(k), r.range(1, 21)).set("r" + std::to_string(k), r.next() >> 2); } }

// exact content of a mesh against what the file means
static void same_content(Ctx &c, std::vector<lib::TriView> const &v, FileCase const &f, std::string const &tag) {
  std::vector<Tri> const &w = f.want.tris; ++c.oracle_checks;
  if (v.size() != w.size()) violate(tag + "/count", fmt("%zu triangles loaded, the file describes %zu", v.size(), w.size()));
  for (size_t i = 0; i < w.size(); ++i) {
    lib::TriView const &t = v[i]; double s = 1; for (int k = 0; k < 3; ++k) s = std::max(s, ref::maxabs(w[i].v[k])); c.oracle_checks += 4;
    if (t.id != long(i)) violate(tag + "/id", fmt("triangle %zu has identifier %ld", i, t.id));
    for (int k = 0; k < 3; ++k) if (!(ref::maxabs(t.v[k] - w[i].v[k]) <= 2e-14 * s * 100)) violate(tag + "/vertex", fmt("triangle %zu vertex %d is (%.12g %.12g %.12g), the file says (%.12g %.12g %.12g)", i, k, t.v[k].x, t.v[k].y, t.v[k].z, w[i].v[k].x, w[i].v[k].y, w[i].v[k].z));
    if (!(t.mu == w[i].mu)) violate(tag + "/friction", fmt("triangle %zu has friction %.17g, the file says %.17g", i, t.mu, w[i].mu));
    Tri q; for (int k = 0; k < 3; ++k) q.v[k] = t.v[k]; Box b = ref::box(q);
    if (!(ref::maxabs(b.lo - t.b.lo) <= 0) || !(ref::maxabs(b.hi - t.b.hi) <= 0)) violate(tag + "/bbox", fmt("bounding box of triangle %zu is not tight", i));
    V3 x = ref::cross(t.v[1] - t.v[0], t.v[2] - t.v[0]); double l = std::max(ref::maxabs(t.v[1] - t.v[0]), ref::maxabs(t.v[2] - t.v[0]));
    if (ref::norm(x) > 1e-6 * l * l && l > 1e-9 * s) {
      double tol = 1e-6 + 1e-12 * s / l * (l * l / ref::norm(x));
      if (!(std::fabs(ref::norm(t.n) - 1) <= 1e-6) || !(ref::norm(ref::cross(ref::unit(x), t.n)) <= tol) || t.n.z < -1e-9 - tol) violate(tag + "/normal", fmt("normal of triangle %zu is (%g %g %g): not the upward unit normal", i, t.n.x, t.n.y, t.n.z));
    }
  }
}
static std::string spill(FileCase const &f, Op const &op, long no) {
  std::string n = fmt("g%04ld", no); static char const *names[] = {"a", "b c", "x.obj", "y.rdf", "-", ".hidden", "./d", "%s%n", "e\xcc\x81t\xc3\xa9"}; long k = op.i("name", -1);
  if (k >= 0) n = k < 9 ? names[k] : std::string(size_t(k), 'n'); // a name used before: the file changes under it
  std::string p = scratch() + "/" + n + (f.obj ? ".obj" : ".rdf"); put_file(p, f.text); return p;
}
static bool do_load(lib::Mesh &m, FileCase const &f, std::string const &path, bool ctor) {
  if (ctor) { lib::Mesh n = f.obj ? lib::Mesh(path, f.mu, f.pose) : lib::Mesh(path, f.pose); m = n; return true; }
  return f.obj ? m.load(path, f.mu, f.pose) : m.load(path, f.pose);
}

// ================================================================ C01
static Trace gen01(Rng &r, bool th) {
  GenOpt g; g.thorough = th; Trace t; int n = int(r.range(1, 4));
  long fam = long(r.below(9)); if (r.chance(1.0 / 900)) { Op o("file"); gen_file(r, o, g, true); bool faces = r.chance(0.5); if (o.s("fmt") == "obj" || o.s("kind") != "hf") o.set("fmt", r.chance(0.5) ? "obj" : "rdf"); o.set("kind", "hf").set("d", 0.01).set("nx", faces ? r.range(180, 190) : r.range(104, 110)).set("ny", faces ? r.range(184, 188) : r.range(106, 110)).set("share", long(faces)).set("how", "load"); t.push_back(o); return t; } // more faces, or more nodes, than 16 bits count
  for (int i = 0; i < n; ++i) {
    Op o("file"); if (i && r.chance(0.25)) { o = t.back(); for (char const *k : {"k1", "k2", "k3", "k4"}) o.set(k, 0L); if (r.chance(0.5)) { o.set("px", r.uni(-50, 50)).set("pyaw", r.uni(-3, 3)); if (!o.has("pcam")) o.set("py", 0.0).set("pz", 0.0).set("pcam", 0.0).set("ppit", 0.0); } if (o.s("fmt") == "obj" && r.chance(0.4)) o.set("omu", r.chance(0.5) ? r.uni(0, 1.5) : std::round(r.uni(0, 1.5) * 64) / 64); } // the same file, placed otherwise
    else { gen_file(r, o, g, true); gen_chunks(r, o); if (r.chance(0.45)) gen_corrupt(r, o, 0.25); gen_name(r, o, fam); }
    o.set("how", r.chance(0.5) ? "ctor" : "load"); t.push_back(o);
  }
  return t;
}
static void exec01(Trace const &t, Ctx &c) {
  lib::Mesh m; long no = 0;
  for (auto &op : t) if (op.n == "file") {
    FileCase f = file_case(op); std::string p = spill(f, op, no++); io_arm(io_of(op)); bool ret = false;
    Res r = lib::guarded(0, 0, [&] { ret = do_load(m, f, p, op.s("how") == "ctor"); });
    IoSeen s = io_disarm(); io_stats(c, s); del_file(p); ++c.oracle_checks;
    bool ok = r.ok && ret; c.st(std::string("file_") + (f.want.m == ref::WELL ? "well" : f.want.m == ref::BAD ? "bad" : "unsettled") + (ok ? "_loaded" : "_refused"));
    c.ev(fmt("%s file of %zu bytes: %s (%s)", f.obj ? "obj" : "rdf", f.text.size(), ok ? "loaded" : "refused", f.want.why.c_str()));
    if (f.want.m == ref::WELL) { if (!ok) violate("C01/refused", "a well-formed file was refused: " + r.what); same_content(c, m.tris(), f, "C01"); c.nontrivial = true; }
    else if (f.want.m == ref::BAD) { if (ok) violate("C01/accepted", "a file without meaning was accepted: " + f.want.why); c.nontrivial = true; }
    if (ok) for (auto &x : m.tris()) { for (int k = 0; k < 3; ++k) { c.log.add(x.v[k].x); c.log.add(x.v[k].z); } c.log.add(x.mu); }
  }
}

// ================================================================ C02
static Trace gen02(Rng &r, bool th) {
  GenOpt g; g.thorough = th; Trace t; int n = int(r.range(2, th ? 10 : 6));
  if (r.chance(0.8)) { Op o("hold"); Op m = gen_mesh(r, g, 0, 0.4, V3()); o.kv = m.kv; t.push_back(o); }
  long fam = long(r.below(9)); Op prev;
  for (int i = 0; i < n; ++i) {
    if (r.chance(0.2)) { Op o(r.chance(0.8) ? "set" : "clear"); if (o.n == "set") { Op m = gen_mesh(r, g, 0, 0.4, V3()); if (m.s("kind") == "hf") m.set("nx", r.range(1, 3)); o.kv = m.kv; } t.push_back(o); } // the mesh changes between the loads
    if (!prev.n.empty() && r.chance(0.2)) { Op o = prev; for (char const *k : {"open", "fail"}) if (o.has(k)) o.set(k, 0L); for (char const *k : {"eio", "trunc"}) if (o.has(k)) o.set(k, -1L); o.set("qs", r.next() >> 2); t.push_back(o); continue; } // the same file again
    Op o("load"); gen_file(r, o, g, false); gen_chunks(r, o); gen_name(r, o, fam); double k = r.uni(); FileCase f = file_case(o); long len = long(f.text.size());
    if (k < 0.25) o.set("eio", r.chance(0.1) ? 0L : r.chance(0.1) ? len : long(r.below(u64(len) + 1)));
    else if (k < 0.35) { static int const e[] = {ENOENT, EACCES, EMFILE, ENOMEM, EIO}; o.set("open", e[r.below(5)]); }
    else if (k < 0.5) o.set("trunc", long(r.below(u64(len) + 1)));
    else if (k < 0.75) o.set("fail", r.chance(0.5) ? r.range(1, 60) : long(r.logu(1, 20 + 40.0 * double(len) / 60))).set("burst", r.chance(0.7) ? 1L : r.range(2, 50));
    else if (k < 0.9) gen_corrupt(r, o, 0.2);
    if (r.chance(0.08)) o.set("path", r.chance(0.5) ? "wrongext" : "missing");
    o.set("how", r.chance(0.3) ? "ctor" : "load").set("qs", r.next() >> 2); t.push_back(o); prev = o;
  }
  return t;
}
// queries answered from the model: every triangle whose box meets the query box, once
typedef std::vector<lib::TriView> Views;
static bool same_view(lib::TriView const &a, lib::TriView const &b) { bool s = a.id == b.id && a.mu == b.mu; for (int k = 0; k < 3 && s; ++k) s = !std::memcmp(&a.v[k], &b.v[k], sizeof(V3)); return s; }
static bool view_less(lib::TriView const &a, lib::TriView const &b) { if (a.id != b.id) return a.id < b.id; return std::memcmp(a.v, b.v, sizeof a.v) < 0; }
static void check_query(Ctx &c, lib::Mesh const &m, Views const &model, Box const &q, std::string const &tag, std::vector<lib::Held> *keep = nullptr) {
  std::vector<lib::Held> got; bool v = m.query(q, got); Views g, w; for (auto &h : got) g.push_back(h.view());
  for (auto &t : model) { Tri x; for (int k = 0; k < 3; ++k) x.v[k] = t.v[k]; if (ref::meets(ref::box(x), q)) w.push_back(t); }
  std::sort(g.begin(), g.end(), view_less); std::sort(w.begin(), w.end(), view_less); c.oracle_checks += 2; c.st("queries"); if (!w.empty()) c.st("queries_hit");
  bool same = g.size() == w.size(); for (size_t i = 0; i < w.size() && same; ++i) same = same_view(g[i], w[i]);
  if (!same) violate(tag + "/query", fmt("box query returned %zu triangles, %zu of %zu meet the box%s", g.size(), w.size(), model.size(), g.size() == w.size() ? " (not the same ones)" : ""));
  if (v != !w.empty()) violate(tag + "/query-verdict", fmt("box query said %s, %zu triangles meet the box", v ? "yes" : "no", w.size()));
  if (keep) for (auto &h : got) keep->push_back(h);
}
static Box some_box(Rng &r, Views const &model) {
  Box all; all.lo = V3(-1, -1, -1); all.hi = V3(1, 1, 1);
  if (!model.empty()) { all.lo = all.hi = model[0].v[0]; for (auto &t : model) for (int k = 0; k < 3; ++k) { V3 p = t.v[k]; all.lo = V3(std::min(all.lo.x, p.x), std::min(all.lo.y, p.y), std::min(all.lo.z, p.z)); all.hi = V3(std::max(all.hi.x, p.x), std::max(all.hi.y, p.y), std::max(all.hi.z, p.z)); } }
  int k = int(r.below(7)); V3 d = all.hi - all.lo;
  auto pt = [&] { return V3(all.lo.x + r.uni(-0.2, 1.2) * d.x, all.lo.y + r.uni(-0.2, 1.2) * d.y, all.lo.z + r.uni(-0.2, 1.2) * d.z); };
  if (k == 0) return ref::grow(all, 1);
  if (k == 1 && !model.empty()) { V3 p = model[r.below(model.size())].v[r.below(3)]; Box b; b.lo = b.hi = p; return b; }            // a point of the mesh
  if (k == 2 && !model.empty()) { Box b = model[r.below(model.size())].b; if (r.chance(0.5)) { b.lo.x = b.hi.x; b.hi.x += 0.1; } return b; } // exactly touching
  if (k == 3) { Box b; b.lo = all.hi + V3(1, 1, 1); b.hi = b.lo + V3(1, 1, 1); return b; }                                      // out of reach
  if (k == 4 && !model.empty()) { V3 p = model[r.below(model.size())].v[0]; double s = r.logu(1e-4, 1); Box b; b.lo = p - V3(s, s, s); b.hi = p + V3(s, s, s); return b; }
  V3 a = pt(), b = pt(); Box q; q.lo = V3(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)); q.hi = V3(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)); return q;
}
static void check_same(Ctx &c, lib::Mesh const &m, Views const &model, std::string const &tag) {
  Views v = m.tris(); ++c.oracle_checks; bool same = v.size() == model.size() && m.size() == model.size(); for (size_t i = 0; i < model.size() && same; ++i) same = same_view(v[i], model[i]);
  if (!same) violate(tag, fmt("the mesh holds %zu triangles, it held %zu before%s", v.size(), model.size(), v.size() == model.size() ? " (not the same ones)" : ""));
}
static void exec02(Trace const &t, Ctx &c) {
  lib::Mesh m; Views model; long no = 0; bool clean = true; // clean: no fault in this trace so far
  for (auto &op : t) {
    if (op.n == "hold") { m = lib::Mesh(make_ground(op)); model = m.tris(); c.ev(fmt("mesh of %zu triangles", model.size())); continue; }
    if (op.n == "set") { lib::Mesh g(make_ground(op)); m.copy(g); model = g.tris(); check_same(c, m, model, "C02/copy"); continue; }
    if (op.n == "clear") { m.clear(); model.clear(); check_same(c, m, model, "C02/clear"); continue; }
    if (op.n != "load") continue;
    FileCase f = file_case(op); std::string p = spill(f, op, no++), path = p; if (op.s("path") == "wrongext") path = p + ".txt"; else if (op.s("path") == "missing") path = scratch() + "/nowhere/x" + (f.obj ? ".obj" : ".rdf");
    if (path != p && op.s("path") == "wrongext") put_file(path, f.text);
    io_arm(io_of(op)); bool ret = false, ctor = op.s("how") == "ctor"; long fail = op.i("fail", 0); lib::Mesh m2 = ctor ? lib::Mesh() : m;
    Res r = lib::guarded(fail, op.i("burst", 1), [&] { ret = do_load(m2, f, path, ctor); });
    IoSeen s = io_disarm(); io_stats(c, s); if (r.failed) c.st("fault_alloc", u64(r.failed)); del_file(p); if (path != p) del_file(path);
    bool ok = r.ok && ret, fault = s.eios || s.open_fails || s.truncs || r.failed || path != p; c.ev(fmt("load %s: %s%s", f.obj ? "obj" : "rdf", ok ? "ok" : "failed", fault ? " (fault)" : "")); ++c.oracle_checks;
    if (r.ok && !ret) violate("C02/silent", "a load came back without an error and without success");
    ref::Parsed w = f.want; if (s.truncs) { FileCase g = f; g.text = f.text.substr(0, size_t(op.i("trunc"))); w = g.obj ? ref::parse_obj(g.text, g.mu, g.pose) : ref::parse_rdf(g.text, g.pose); }
    if (ok) {
      if (s.eios) violate("C02/partial", fmt("the load succeeded although reading failed at byte %ld of %zu", op.i("eio"), f.text.size()));
      if (s.open_fails || path != p) violate("C02/opened", "the load succeeded although the file could not be opened");
      if (w.m == ref::BAD) violate("C02/accepted", "a file that has to be refused was loaded: " + w.why);
      FileCase g = f; g.want = w; if (w.m == ref::WELL) same_content(c, m2.tris(), g, "C02/content"); 
      m = m2; model = m.tris(); c.st("loads_ok"); if (!clean) c.st("loads_ok_after_fault");
    } else {
      if (w.m == ref::WELL && !fault) violate("C02/refused", "a load that met no fault failed: " + r.what);
      if (r.ok) violate("C02/silent", "failed without an error");
      c.st("loads_failed"); check_same(c, m, model, "C02/changed"); clean = false; if (!model.empty()) c.nontrivial = true;
    }
    Rng q(op.u("qs", 1)); for (int k = 0; k < 4; ++k) check_query(c, m, model, some_box(q, model), "C02");
  }
}

// ================================================================ C03
static Trace gen03(Rng &r, bool th) {
  GenOpt g; g.thorough = th; Trace t; int n = int(r.range(3, th ? 30 : 14)); long fam = long(r.below(9));
  if (r.chance(1.0 / 700)) { // a ground of more triangles than 16 bits count, asked everywhere and then copied
    Op o("make"); o.set("m", 0L).set("seed", r.next() >> 1).set("kind", "hf").set("d", 0.01).set("nx", r.range(181, 196)).set("ny", r.range(182, 190)).set("amp", 0.01); t.push_back(o); Op a("ask"); a.set("m", 0L).set("seed", r.next() >> 2).set("k", r.range(4, 8)); t.push_back(a);
    if (r.chance(0.3)) { Op q("copy"); q.set("m", 1L); t.push_back(q); Op b("ask"); b.set("m", 1L).set("seed", r.next() >> 2).set("k", r.range(2, 4)); t.push_back(b); } return t; }
  for (int i = 0; i < n; ++i) {
    double k = r.uni(); Op o; long slot = r.chance(0.7) ? 0 : 1;
    if (i == 0 ? r.chance(0.8) : k < 0.18) { o = gen_mesh(r, g, slot, 0.4, V3()); o.n = "make"; if (r.chance(0.3)) o.set("ids", r.next() >> 2); if (r.chance(0.06)) o.set("upto", 0L); }
    else if (k < 0.34) { o = Op("load"); gen_file(r, o, g, false); if (r.chance(0.3)) gen_corrupt(r, o, 0); if (r.chance(0.25)) o.set("fail", long(r.logu(1, 600))); if (r.chance(0.1)) o.set("eio", r.range(0, 2000)); gen_name(r, o, fam); }
    else if (k < 0.46) { o = Op("copy"); if (r.chance(0.2)) o.set("self", 1L); if (r.chance(0.3)) o.set("fail", long(r.logu(1, 200))); }
    else if (k < 0.52) o = Op("clear");
    else if (k < 0.6) { o = Op("rebuild"); if (r.chance(0.4)) o.set("fail", long(r.logu(1, 300))); }
    else if (k < 0.66) o = Op("drop");
    else { o = Op("ask"); o.set("seed", r.next() >> 2).set("k", r.range(1, 6)); }
    o.set("m", slot); t.push_back(o);
    if (o.n != "ask") { Op a("ask"); a.set("m", slot).set("seed", r.next() >> 2).set("k", r.range(1, 4)); t.push_back(a); }
  }
  return t;
}
static void exec03(Trace const &t, Ctx &c) {
  lib::Mesh m[2]; Views model[2]; struct Kept { lib::Held h; lib::TriView v; }; std::vector<Kept> kept; long no = 0;
  for (auto &op : t) {
    long k = op.i("m", 0) & 1, fail = op.i("fail", 0); Res r; size_t before = model[k].size();
    if (op.n == "make") { std::vector<Tri> g = make_ground(op); std::vector<long> ids; if (op.has("ids")) ids = odd_ids(op.u("ids"), g.size());
      m[k] = op.has("ids") ? lib::Mesh(g, &ids) : lib::Mesh(g); model[k] = m[k].tris(); if (model[k].size() != g.size()) violate("C03/content", "a mesh made of triangles does not hold them"); }
    else if (op.n == "load") { FileCase f = file_case(op); std::string p = spill(f, op, no++); io_arm(io_of(op)); bool ret = false; r = lib::guarded(fail, 1, [&] { ret = do_load(m[k], f, p, false); }); io_stats(c, io_disarm()); del_file(p); if (r.ok && ret) model[k] = m[k].tris(); }
    else if (op.n == "copy") { long from = op.i("self", 0) ? k : 1 - k; r = lib::guarded(fail, 1, [&] { m[k].copy(m[from]); }); if (r.ok) { Views v = m[k].tris(), w = model[from]; ++c.oracle_checks; if (v.size() != w.size()) violate("C03/copy", fmt("a copy of %zu triangles holds %zu", w.size(), v.size())); for (size_t i = 0; i < w.size(); ++i) if (std::memcmp(v[i].v, w[i].v, sizeof v[i].v) || v[i].mu != w[i].mu) violate("C03/copy", fmt("triangle %zu of a copy differs", i)); model[k] = v; } }
    else if (op.n == "clear") { m[k].clear(); model[k].clear(); }
    else if (op.n == "rebuild") { r = lib::guarded(fail, 1, [&] { m[k].build(); }); }
    else if (op.n == "drop") { m[k] = lib::Mesh(); model[k].clear(); }
    else if (op.n == "ask") {
      Rng q(op.u("seed", 1)); std::vector<lib::Held> got; for (long i = 0; i < op.i("k", 1); ++i) check_query(c, m[k], model[k], some_box(q, model[k]), "C03", &got);
      for (size_t i = 0; i < got.size() && kept.size() < 24; i += 1 + got.size() / 3) kept.push_back(Kept{got[i], got[i].view()}); if (!model[k].empty()) c.nontrivial = true;
    } else continue;
    if (r.failed) c.st("fault_alloc", u64(r.failed)); c.st("op_" + op.n + (r.ok ? "" : "_failed")); c.ev(fmt("%s m%ld: %s, %zu -> %zu triangles", op.n.c_str(), k, r.ok ? "ok" : "failed", before, model[k].size()));
    check_same(c, m[k], model[k], "C03/content");
    for (auto &x : kept) { ++c.oracle_checks; lib::TriView v = x.h.view(); if (!same_view(v, x.v) || std::memcmp(&v.n, &x.v.n, sizeof v.n) || std::memcmp(&v.b, &x.v.b, sizeof v.b)) violate("C03/handed-out", "a triangle handed out earlier changed"); }
  }
}

// ================================================================ C15
static Trace gen15(Rng &r, bool th) {
  GenOpt g; g.thorough = th; Trace t; int n = int(r.range(1, 4)); double off = r.chance(0.6) ? 0 : r.logu(1, 1e7); Op m = gen_mesh(r, g, 0, 0.4, V3(off, -0.7 * off, r.chance(0.5) ? 0 : -0.01 * off)); if (r.chance(0.3)) m.set("ids", r.next() >> 2); if (r.chance(0.4) && m.s("kind") == "hf") m.set("nx", r.range(1, 3)).set("ny", r.range(1, 3)); if (r.chance(0.05)) m.set("upto", 0L); t.push_back(m);
  double len = 150 + 160.0 * double(make_ground(m).size());
  for (int i = 0; i < n; ++i) {
    Op o("print"); gen_chunks(r, o); double k = r.uni(); static int const we[] = {ENOSPC, EIO, EDQUOT, EFBIG, EPIPE};
    if (k < 0.4) o.set("wfail", r.chance(0.1) ? 0L : r.chance(0.3) ? long(len) - r.range(0, 400) : long(r.uni(0, len * 1.1))).set("werr", we[r.below(5)]);
    else if (k < 0.5) { static int const e[] = {ENOENT, EACCES, EROFS, EMFILE, ENOSPC}; o.set("open", e[r.below(5)]); }
    else if (k < 0.62) o.set("cerr", r.chance(0.5) ? ENOSPC : EIO);
    else if (k < 0.75) o.set("fail", long(r.logu(1, 500))).set("burst", r.chance(0.7) ? 1L : r.range(2, 40));
    if (r.chance(0.2)) o.set("old", r.range(1, 20000)); // a longer or shorter file is already there
    if (r.chance(0.05)) o.set("path", "missing"); else if (r.chance(0.05)) o.set("path", "dir");
    if (r.chance(0.05)) { static int const e[] = {EACCES, EXDEV, ENOSPC, EBUSY}; o.set("rerr", e[r.below(4)]); }
    if (o.i("wfail", 0) < 0) o.set("wfail", 0L);
    t.push_back(o);
  }
  return t;
}
static std::vector<std::string> listing_tokens(std::string const &s, size_t from) {
  std::vector<std::string> t; std::string cur; for (size_t i = from; i < s.size(); ++i) { char ch = s[i]; if (strchr(" \t\r\n,;[](){}=:'", ch)) { if (!cur.empty()) t.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) t.push_back(cur); return t;
}
static void check_listing(Ctx &c, std::string const &s, Views const &m) {
  size_t at = s.find("Legend"); if (at == std::string::npos) violate("C15/legend", "the file has no legend");
  size_t b = s.find("\nT  = 0", at); ++c.oracle_checks;
  if (b == std::string::npos) { b = s.find("\nT = 0", at); }
  if (m.empty()) { if (b != std::string::npos) violate("C15/listing", "triangles listed for an empty mesh"); return; }
  if (b == std::string::npos) violate("C15/listing", "the file lists no triangle");
  std::string leg = s.substr(0, b); for (char const *k : {"V0", "V1", "V2", "N ", "F "}) if (leg.find(k) == std::string::npos) violate("C15/legend", "the legend is incomplete");
  if (s[s.size() - 1] != '\n') violate("C15/listing", "the last line of the file is cut short");
  std::vector<std::string> t = listing_tokens(s, b); size_t k = 0;
  auto label = [&](char const *l, size_t i) { if (k >= t.size() || t[k] != l) violate("C15/listing", fmt("the listing stops or goes wrong at triangle %zu of %zu (%s)", i, m.size(), l)); ++k; };
  auto value = [&](double w, size_t i, bool any) { if (k >= t.size()) violate("C15/listing", fmt("the listing ends inside triangle %zu of %zu", i, m.size())); char *e; double v = strtod(t[k].c_str(), &e); if (*e) violate("C15/listing", fmt("a value of triangle %zu is not a number", i)); if (!any && !(std::fabs(v - w) <= 1.1e-5 * std::fabs(w) + 1e-12)) violate("C15/value", fmt("triangle %zu: %s listed for %.12g", i, t[k].c_str(), w)); ++k; };
  for (size_t i = 0; i < m.size(); ++i) {
    label("T", i); value(double(i), i, false);
    for (int j = 0; j < 3; ++j) { char l[3] = {'V', char('0' + j), 0}; label(l, i); value(m[i].v[j].x, i, false); value(m[i].v[j].y, i, false); value(m[i].v[j].z, i, false); }
    label("N", i); bool nan = m[i].n.x != m[i].n.x; value(m[i].n.x, i, nan); value(m[i].n.y, i, nan); value(m[i].n.z, i, nan); label("F", i); value(m[i].mu, i, false); c.oracle_checks += 13;
  }
  if (k != t.size()) violate("C15/listing", "there is more in the file than the mesh");
}
static void exec15(Trace const &t, Ctx &c) {
  lib::Mesh m; Views model; long no = 0;
  for (auto &op : t) {
    if (op.n == "mesh") { std::vector<Tri> g = make_ground(op); std::vector<long> ids; if (op.has("ids")) ids = odd_ids(op.u("ids"), g.size()); m = op.has("ids") ? lib::Mesh(g, &ids) : lib::Mesh(g); model = m.tris(); continue; }
    if (op.n != "print") continue;
    std::string p = scratch() + fmt("/o%04ld.txt", no++); if (op.s("path") == "missing") p = scratch() + "/nowhere/o.txt";
    else if (op.s("path") == "dir") { p = scratch() + fmt("/d%04ld", no); mkdir(p.c_str(), 0700); c.st("fault_target_is_directory"); }
    else if (op.has("old")) put_file(p, std::string(size_t(op.i("old")), '9'));
    io_arm(io_of(op)); Res r = lib::guarded(op.i("fail", 0), op.i("burst", 1), [&] { m.print(p); });
    IoSeen s = io_disarm(); io_stats(c, s); if (r.failed) c.st("fault_alloc", u64(r.failed)); std::string txt; bool there = get_file(p, txt); if (op.s("path") == "dir") rmdir(p.c_str()); else del_file(p);
    c.ev(fmt("print of %zu triangles: %s, %zu bytes", model.size(), r.ok ? "ok" : "failed", txt.size())); c.log.add(txt); ++c.oracle_checks; c.st(r.ok ? "prints_ok" : "prints_failed"); c.nontrivial = true;
    bool fault = s.open_fails || s.write_fails || s.close_fails || r.failed || s.rename_fails || op.has("path");
    if (r.ok) {
      if (s.open_fails || op.has("path")) violate("C15/unreported", "printing came back normally although the file could not be created");
      if (s.write_fails) violate("C15/unreported", fmt("printing came back normally although writing failed at byte %ld", op.i("wfail")));
      if (s.close_fails) violate("C15/unreported", "printing came back normally although closing the file failed");
      if (!there) violate("C15/unreported", "printing came back normally and there is no file");
      check_listing(c, txt, model);
      if (op.has("old")) { std::string p2 = scratch() + fmt("/n%04ld.txt", no), t2; Res r2 = lib::guarded(0, 0, [&] { m.print(p2); }); if (!r2.ok) violate("C15/refused", "printing failed without a fault: " + r2.what); get_file(p2, t2); del_file(p2); ++c.oracle_checks; if (t2 != txt) violate("C15/replaced", fmt("printing over an old file of %ld bytes left %zu bytes, printing to a new one %zu", op.i("old"), txt.size(), t2.size())); }
    } else if (!fault) violate("C15/refused", "printing failed without a fault: " + r.what);
    check_same(c, m, model, "C15/mesh");
  }
}

void add_files(std::vector<Property> &v) {
  v.push_back(Property{"C01", "1-4 ground files per run, RDF or OBJ, rendered from generated meshes in 128 layouts (sections, comments, CRLF, spacing, shared nodes), 45% of them corrupted 1-4 times, read through short and interrupted reads, loaded with a pose by constructor or load; non-trivial if a file with a settled meaning (well-formed or to be refused) was read", gen01, exec01});
  v.push_back(Property{"C02", "a mesh object holding triangles, then 2-10 loads, each meeting one of: read error at a byte, failing open, lost tail, allocation failure at a point, corruption, wrong path, or nothing; after each, content and queries are compared with the model; non-trivial if a load failed on a mesh that held triangles", gen02, exec02});
  v.push_back(Property{"C03", "histories of make/load/copy/clear/rebuild/drop with failures on two meshes and box queries (random, touching, point, covering, far) after each; non-trivial if a non-empty mesh was asked", gen03, exec03});
  v.push_back(Property{"C15", "a mesh printed 1-4 times with a write error at a byte, failing open, close or move, allocation failure, short and interrupted writes, or nothing, over no file, an old one or a directory; non-trivial if anything was printed", gen15, exec15});
}
} // namespace sim
