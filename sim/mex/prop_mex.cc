// Sessions of a MATLAB workspace with the gateways of the toolbox: C20
#include "../props.hpp"
#include "rt.hpp"
#include <algorithm>
#include <fstream>
#include <limits>
#include <sstream>

namespace sim {
using mex::ObjP; using mex::Reply; using mex::Val;
static char const *short_name = "smft";
static char const *q_shell0[] = {"size", "surfaceMaxRadius", "surfaceMaxWidth", "surfaceWidth", "translation", "rotation", "transformation", "x", "y", "z", "eulerAngles", "contactPointAvg", "contactNormalAvg", "contactDepthAvg", "contactFrictionAvg", "contactAreaAvg", "contactVolumeAvg", "contactPointAffineAvg", "relativeAnglesAvg"};
static char const *q_shelly[] = {"checkWidthBound", "surfaceRadius", "surfaceDerivative", "surfaceAngle"};
static char const *q_shelli[] = {"ribRadius", "ribCenter", "ribWidth", "ribAngle", "contactPointRib", "contactNormalRib", "contactDepthRib", "contactFrictionRib", "contactAreaRib", "contactVolumeRib", "contactPointAffineRib", "relativeAnglesRib"};
static char const *q_flat[] = {"getOrigin", "getNormal", "getPlane", "getFriction", "isDegenerated"};
static char const *q_tg[] = {"getID", "getFriction", "getVertex1", "getVertex2", "getVertex3", "normal"};
static char const *q_mesh[] = {"size", "getTrianglegroundVertices"};
template <size_t N> static bool in(char const *const (&a)[N], std::string const &s) { for (auto p : a) if (s == p) return true; return false; }
template <size_t N> static std::string one(Rng &r, char const *const (&a)[N]) { return a[r.below(N)]; }

// ---- the classes of the toolbox: what each method makes of its arguments, read from their text (methods with one command only)
namespace {
struct Method { std::string cmd; std::vector<std::string> par, arg; std::string typed, type; bool out; };
struct Classes {
  std::map<std::string, Method> at[4];
  static std::string trim(std::string s) { size_t a = s.find_first_not_of(" \t\r\n."), b = s.find_last_not_of(" \t\r\n."); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
  static std::vector<std::string> split(std::string const &s) { std::vector<std::string> r; std::stringstream q(s); std::string w; while (std::getline(q, w, ',')) r.push_back(trim(w)); return r; }
  Classes() {
    char const *file[] = {"enve_shell", "enve_mesh", "enve_flat", "enve_triangleground"}; char const *gate[] = {"mex_shell", "mex_mesh", "mex_flat", "mex_triangleground"};
    for (int k = 0; k < 4; ++k) {
      std::ifstream f(std::string(SIM_CLASSES) + "/" + file[k] + ".m"); std::string line, all; while (std::getline(f, line)) { bool q = false; for (size_t i = 0; i < line.size(); ++i) { if (line[i] == '\'' || line[i] == '"') q = !q; if (line[i] == '%' && !q) { line.resize(i); break; } } all += line + "\n"; }
      for (size_t at0 = all.find("function "); at0 != std::string::npos;) {
        size_t next = all.find("function ", at0 + 9); std::string b = all.substr(at0 + 9, (next == std::string::npos ? all.size() : next) - at0 - 9); at0 = next;
        size_t nl = b.find('\n'); std::string head = b.substr(0, nl), body = nl == std::string::npos ? "" : b.substr(nl); Method m; size_t eq = head.find('='); m.out = eq != std::string::npos; if (m.out) head = head.substr(eq + 1);
        size_t po = head.find('('); std::string name = trim(head.substr(0, po)); if (po != std::string::npos) m.par = split(head.substr(po + 1, head.rfind(')') - po - 1));
        size_t g = body.find("mex_"); while (g != std::string::npos && body[g + std::string(gate[k]).size()] != '(') g = body.find("mex_", g + 1); // not the name in a message
        if (g == std::string::npos || body.compare(g, std::string(gate[k]).size(), gate[k])) continue; size_t open = body.find('(', g), close = body.find(')', open); if (close == std::string::npos) continue;
        { size_t g2 = body.find("mex_", close); bool more = false; while (g2 != std::string::npos) { size_t e = g2; while (e < body.size() && (std::isalnum((unsigned char)body[e]) || body[e] == '_')) ++e; if (e < body.size() && body[e] == '(') more = true; g2 = body.find("mex_", g2 + 1); } if (more) continue; }
        m.arg = split(body.substr(open + 1, close - open - 1)); if (m.arg.empty() || m.arg[0].size() < 3 || m.arg[0][0] != '\'') continue; m.cmd = m.arg[0].substr(1, m.arg[0].size() - 2);
        size_t ty = body.find(".type() == \""); if (ty != std::string::npos) { size_t w = ty; while (w > 0 && (std::isalnum((unsigned char)body[w - 1]) || body[w - 1] == '_')) --w; m.typed = body.substr(w, ty - w); m.type = body.substr(ty + 12, body.find('"', ty + 12) - ty - 12); }
        if (m.par.empty() || m.par[0] != "this") continue; at[k][name] = m;
      }
    }
  }
};
Classes const &classes() { static Classes const c; return c; }
}

// ---- generator
static void put_io(Rng &r, Op &o) { double u = r.uni(); if (u < 0.72) return; if (u < 0.79) o.set("io", "open"); else if (u < 0.86) o.set("io", "eio").set("at", r.range(0, 3000)); else if (u < 0.92) o.set("io", "trunc").set("at", r.range(0, 3000)); else o.set("io", "chunk").set("at", r.range(1, 200)); }
static Trace gen20(Rng &r, bool th) {
  Trace t; GenOpt g; g.thorough = th; Op sh = gen_shell(r, 0, false); double R = sh.d("rx"); int n = int(r.range(6, th ? 60 : 30));
  auto ground = [&](Op &o) { Op m = gen_mesh(r, g, 0, R, V3()); for (auto &p : m.kv) if (p.first != "m" && p.first != "build" && p.first != "s") o.set(p.first, p.second); if (r.chance(0.7)) { if (o.s("kind") == "hf") o.set("nx", r.range(2, 8)).set("ny", r.range(2, 6)); else o.set("n", r.range(1, 20)); } o.set("style", r.below(128)).set("share", long(r.below(2))); };
  auto mesh_new = [&](long k) { Op o("new"); o.set("g", "m").set("s", k); if (r.chance(0.12)) { o.set("form", 0L); return o; } ground(o); o.set("form", r.range(1, 4)); if (r.chance(0.12)) o.set("form", r.range(5, 10)); o.set("mu2", r.uni(0, 1.5)); if (r.chance(0.6)) { o.set("px", r.uni(-0.3, 0.3)).set("py", r.uni(-0.3, 0.3)).set("pz", r.uni(-0.1, 0.1)).set("pyaw", r.uni(-3, 3)).set("pcam", r.uni(-0.3, 0.3)).set("ppit", r.uni(-0.2, 0.2)); } put_io(r, o); return o; };
  auto shell_new = [&](long k) { Op s = gen_shell(r, 0, r.chance(0.1)); Op o("new"); o.set("g", "s").set("s", k); for (char const *q : {"n", "rx", "mx", "ry", "my", "ly"}) if (s.has(q)) o.set(q, s.s(q)); if (r.chance(0.7)) o.set("n", r.range(1, 9)); if (r.chance(0.04)) o.set("big", r.below(6)); return o; };
  auto flat_new = [&](long k) { Op o("new"); o.set("g", "f").set("s", k); if (r.chance(0.15)) { o.set("blank", 1L); return o; } o.set("mu", r.uni(0, 1.5)).set("ox", r.uni(-1, 1)).set("oy", r.uni(-1, 1)).set("oz", r.uni(-0.05, 0.05)).set("nx", r.uni(-0.3, 0.3)).set("ny", r.uni(-0.3, 0.3)).set("nz", r.chance(0.04) ? -0.5 : r.uni(0.3, 1.2)); return o; };
  auto tg_new = [&](long k) { Op o("new"); o.set("g", "t").set("s", k); if (r.chance(0.12)) { o.set("blank", 1L); return o; } if (r.chance(0.06)) o.set("big", r.below(6)); o.set("id", r.range(-120, 1000)).set("mu", r.chance(0.04) ? -0.5 : r.uni(0, 1.5)); for (int i = 0; i < 9; ++i) o.set(fmt("v%d", i), r.uni(-1, 1)); return o; };
  t.push_back(shell_new(0)); if (r.chance(0.8)) t.push_back(mesh_new(0)); if (r.chance(0.7)) t.push_back(flat_new(0));
  static char const *icls[] = {"double", "double", "double", "int32", "int64", "single", "int8", "uint8", "int16", "uint16", "uint32", "uint64"};
  Op again; bool rerun = false; // the same solver call once more, right after its objects were changed
  for (int i = 0; i < n; ++i) {
    if (rerun && r.chance(0.6)) { t.push_back(again); rerun = false; continue; } rerun = false;
    Op o; double u = r.uni(); long s = r.chance(0.75) ? 0 : 1;
    if (u < 0.05) o = shell_new(s); else if (u < 0.1) o = mesh_new(s); else if (u < 0.14) o = flat_new(s); else if (u < 0.18) o = tg_new(s);
    else if (u < 0.21) { o = Op("delete"); o.set("g", std::string(1, short_name[r.below(4)])).set("s", s); }
    else {
      o = Op("call"); o.set("s", s);
      if (u < 0.36) { bool fl = r.chance(0.35); o.set("g", "s").set("c", fl ? "setupFlat" : "setupMesh").set("o", r.chance(0.8) ? 0L : 1L).set("method", r.chance(0.65) ? "geometric" : r.chance(0.8) ? "sampling" : "fast"); put_pose(o, V3(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), R * r.uni(0.6, 1.1)), r.uni(-3, 3), r.chance(0.4) ? 0.0 : r.uni(-0.3, 0.3), r.uni(-3, 3)); if (r.chance(0.06)) o.set("z", R * 9); if (r.chance(0.03)) o.set("scale", 1.3); }
      else if (u < 0.4) { o.set("g", "s").set("c", "resize").set("n", r.chance(0.06) ? 0L : r.range(1, 14)); if (r.chance(0.08)) o.set("big", r.below(6)); }
      else if (u < 0.48) { int k = int(r.below(4)); o.set("g", "s").set("c", k == 0 ? "translate" : k == 1 ? "rotate" : k == 2 ? "transform" : "checkTransformation"); put_pose(o, V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)), r.uni(-3, 3), r.uni(-0.5, 0.5), r.uni(-3, 3)); o.set("a", r.uni(-3, 3)).set("axis", r.range(0, 3)); if (k >= 2 && r.chance(0.25)) o.set("scale", r.uni(0.3, 2)); }
      else if (u < 0.72) { o.set("g", "s"); double v = r.uni(); if (v < 0.4) o.set("c", one(r, q_shell0)); else if (v < 0.55) o.set("c", one(r, q_shelly)).set("y", r.uni(-0.3, 0.3)); else o.set("c", one(r, q_shelli)).set("i", r.range(0, 200)); }
      else if (u < 0.8) { double v = r.uni(); o.set("g", "m"); if (v < 0.2) o.set("c", "size"); else if (v < 0.5) o.set("c", "getTrianglegroundVertices").set("i", r.range(0, 2000)); else if (v < 0.72) o.set("c", "getTriangleground").set("i", r.range(0, 2000)).set("o", r.range(0, 1)); else if (v < 0.84) o.set("c", "copy").set("o", r.range(0, 1)); else { o.set("c", "load"); ground(o); o.set("form", r.chance(0.8) ? r.range(1, 2) : r.range(3, 6)).set("mu2", r.uni(0, 1.5)); put_io(r, o); } }
      else if (u < 0.92) { double v = r.uni(); o.set("g", "f"); if (v < 0.45) o.set("c", one(r, q_flat)); else if (v < 0.55) o.set("c", "isApprox").set("o", r.range(0, 1)); else if (v < 0.65) o.set("c", "copy").set("o", r.range(0, 1)); else if (v < 0.75) o.set("c", "setPlane").set("o", r.range(0, 1)); else { o.set("c", v < 0.83 ? "setOrigin" : v < 0.92 ? "setNormal" : "setFriction").set("x", r.uni(-0.4, 0.4)).set("y", r.uni(-0.4, 0.4)).set("z", r.uni(0.01, 1)).set("mu", r.uni(0, 2)); } }
      else { o.set("g", "t"); if (r.chance(0.8)) o.set("c", one(r, q_tg)); else o.set("c", "copy").set("o", r.range(0, 1)); }
    }
    if (r.chance(0.25)) o.set("icls", one(r, icls)); if (r.chance(0.1)) o.set("single", 1L);
    if (r.chance(0.2)) o.set("twist", r.range(0, 13)).set("at", o.has("io") ? o.i("at") : long(r.below(8))).set("how", r.range(0, 15));
    else if (r.chance(0.18)) o.set(r.chance(0.7) ? "fail" : "mxfail", o.s("c") == "load" || o.n == "new" ? r.range(1, 40) : r.chance(0.6) ? r.range(1, 5) : r.range(1, 30));
    if (o.has("mxfail")) o.set("mxfail", r.range(1, 2));
    if (r.chance(0.4)) o.set("via", r.range(1, 2));
    t.push_back(o);
    if (o.n == "call" && (o.s("c") == "setupMesh" || o.s("c") == "setupFlat") && !o.has("twist")) { again = o; again.set("fail", 0L).set("mxfail", 0L); }
    else if (!again.n.empty() && (o.s("c") == "resize" || o.s("c") == "load" || o.s("c") == "copy" || o.s("c").compare(0, 3, "set") == 0 || o.s("c") == "translate" || (o.n == "new" && o.s("g") != "t"))) {
      rerun = true; // aim at the objects of that call
      if (r.chance(0.7)) { Op &w = t.back(); if (w.s("g") == "s") w.set("s", again.s("s")); else if (w.s("g") != "t") w.set("s", again.i("o", 0)); }
    }
  }
  return t;
}

// ---- executor
namespace {
struct Slot { uint64_t h = 0; ObjP o; bool blank = false; };
struct Session {
  Ctx &c; std::map<long, Slot> slots[4]; Rng peeks; long files = 0; u64 calls = 0, bad = 0, faults = 0; std::string file;
  explicit Session(Ctx &x) : c(x), peeks(77) {}
  static Val num(double v, char const *cls = "double") { Val a; a.cls = cls; a.dim = {1, 1}; a.d = {v}; return a; }
  static Val mat(size_t m, size_t n, std::vector<double> const &d) { Val a; a.dim = {m, n}; a.d = d; return a; }
  static Val text(std::string const &s) { Val a; a.kind = 's'; a.s = s; return a; }
  static Val hand(uint64_t h) { Val a; a.kind = 'h'; a.h = h; return a; }
  static Val vec(V3 v) { return mat(3, 1, {v.x, v.y, v.z}); }
  static Val aff(Pose const &p) { return mat(4, 4, {p.ex.x, p.ex.y, p.ex.z, 0, p.ey.x, p.ey.y, p.ey.z, 0, p.ez.x, p.ez.y, p.ez.z, 0, p.o.x, p.o.y, p.o.z, 1}); }
  double scalar(Op const &op, double v) { return op.i("single") ? double(float(v)) : v; }
  Val snum(Op const &op, double v) { return op.i("single") ? num(double(float(v)), "single") : num(v); }
  Val inum(Op const &op, double v) { std::string k = op.s("icls", "double"); bool u = k[0] == 'u'; double lo = u ? 0 : k == "int8" ? -128 : -32768, hi = k == "int8" ? 127 : k == "uint8" ? 255 : k == "int16" ? 32767 : 65535; if ((k[0] == 'i' || u) && (v < lo || v > hi)) k = "int64"; Val a = num(v); a.cls = k; return a; }
  void arm_io(Op const &op) { IoPlan p; std::string k = op.s("io"); if (k == "open") p.open_errno = 5; else if (k == "eio") p.eio_read_at = op.i("at"); else if (k == "trunc") p.trunc_at = op.i("at"); else if (k == "chunk") p.chunk = int(op.i("at", 1)); if (!k.empty()) c.st("io_" + k); io_arm(p); }
  // what a call gave against what the library gives; "" or the difference
  static std::string differ(Reply const &r, std::vector<double> const &got, std::vector<double> const &want, bool handle) {
    if (!r.set) return "no output was set";
    if (!handle) { size_t n = want.size(), a = n == 16 ? 4 : n == 9 ? 3 : n, b = n / a; if (r.out.dim.size() != 2 || r.out.dim[0] != a || r.out.dim[1] != b) return fmt("an output of the wrong shape (%zu x %zu instead of %zu x %zu)", r.out.dim.size() > 0 ? r.out.dim[0] : 0, r.out.dim.size() > 1 ? r.out.dim[1] : 0, a, b); }
    size_t w = 0; if (!same_bits(got, want, &w)) return fmt("entry %zu is %.17g, the object gives %.17g", w + 1, w < got.size() ? got[w] : -1, w < want.size() ? want[w] : -1);
    return "";
  }
  // a query through the gateway and straight to the object
  void query(mex::Gw g, Slot &s, std::string const &cmd, long i, double y, Pose const *ps, Slot *other, Op const &op, char const *when) {
    std::vector<Val> a{text(cmd), hand(s.h)}; bool idx = in(q_shelli, cmd) || cmd == "getTrianglegroundVertices";
    if (idx) a.push_back(inum(op, double(i))); else if (in(q_shelly, cmd)) { y = scalar(op, y); a.push_back(snum(op, y)); } else if (cmd == "checkTransformation") a.push_back(aff(*ps)); else if (cmd == "isApprox") a.push_back(hand(other->h));
    Reply r = faulty(g, 1, a, op); std::vector<double> want; Res q = lib::guarded(0, 0, [&] { want = mex::ask(*s.o, cmd, i, y, ps, other ? other->o.get() : nullptr); });
    ++c.oracle_checks; std::string name = std::string(mex::gw_name[g]) + "('" + cmd + "')" + when;
    if (r.ok != q.ok) violate("C20/verdict", name + (r.ok ? " came back normally where the object fails: " + q.what : " was refused: " + r.msg));
    if (!r.ok) { c.ev(name + " refused"); return; }
    bool pt = cmd == "ribCenter" || cmd.compare(0, 12, "contactPoint") == 0, pl = cmd == "getPlane"; pt = (pt && cmd.find("Affine") == std::string::npos) || cmd == "getOrigin" || cmd.compare(0, 9, "getVertex") == 0;
    std::vector<double> got = r.out.d; if (pt || pl) { if (!r.set || r.out.kind != 'h') violate("C20/output", name + " did not return a handle"); try { got = pt ? mex::read_point(r.out.h) : mex::read_plane(r.out.h); } catch (...) { violate("C20/output", name + " returned a handle of another type"); } if (pt) mex::drop_point(r.out.h); else mex::drop_plane(r.out.h); }
    std::string d = differ(r, got, want, pt || pl); if (!d.empty()) violate("C20/value", name + ": " + d);
    log_values(c, got); c.st("q_" + cmd);
  }
  long last_faults = 0;
  Reply faulty(mex::Gw g, int nlhs, std::vector<Val> const &a, Op const &op) { // with the operation's fault; then, if that made it fail, without
    ++calls; long f = op.i("fail"), m = op.i("mxfail"); last_faults = 0; if (f <= 0 && m <= 0) return run(g, nlhs, a, 0, op);
    if (f > 0) alloc_arm(f, 1); Reply r = run(g, nlhs, a, m, op); long hit = f > 0 ? alloc_disarm() : 0; if (m > 0 && r.created >= m) { ++hit; c.st("fault_mxcreate"); } else if (hit) c.st("fault_alloc");
    if (!hit) return r; ++faults; if (r.ok) { c.st("fault_survived"); return r; } last_faults = hit; c.ev("  failed under memory exhaustion: " + a[0].s);
    return run(g, nlhs, a, 0, op);
  }
  // the same command given as a method of the class of the toolbox; false if the class has none for it, or gives up on its own
  bool by_class(mex::Gw g, int nlhs, std::vector<Val> &a, size_t way, bool &gives_up) {
    gives_up = false; if (a.size() < 2 || a[0].kind != 's' || a[1].kind != 'h') return false; std::string w = a[0].s;
    if (way % 2) w = w == "checkWidthBound" ? "surfaceWidthBound" : w == "getTrianglegroundVertices" ? "getTriangleVertices" : w == "copy" ? "copyByHandle" : w; else if (w == "checkWidthBound") w = "surfaceWidthBound";
    auto const &t = classes().at[g]; auto it = t.find(w); if (it == t.end() || it->second.par.size() != a.size() - 1 || it->second.out != (nlhs == 1) || nlhs > 1) return false; Method const &m = it->second;
    std::vector<Val> b{text(m.cmd)};
    for (size_t i = 1; i < m.arg.size(); ++i) { std::string x = m.arg[i]; size_t dot = x.find(".objectHandle"); if (dot != std::string::npos) x = x.substr(0, dot); size_t j = 0; while (j < m.par.size() && m.par[j] != x) ++j; if (j == m.par.size()) return false; b.push_back(a[1 + j]); if (dot != std::string::npos && a[1 + j].kind != 'h') return false; }
    if (!m.typed.empty()) { size_t j = 0; while (j < m.par.size() && m.par[j] != m.typed) ++j; if (j == m.par.size()) return false; static char const *ty[] = {"shell", "mesh", "flat", "triangleground"}; int k = -1; for (int q = 0; q < 4; ++q) for (auto &kv : slots[q]) if (kv.second.h == a[1 + j].h) k = q; if (k < 0) return false; gives_up = m.type != ty[k]; }
    a = b; c.st("by_class"); return true;
  }
  Reply run(mex::Gw g, int nlhs, std::vector<Val> a, long m, Op const &op) {
    bool up = false; size_t way = op.n.empty() ? (peeks.chance(0.3) ? 1 + peeks.below(2) : 0) : size_t(op.i("via")); if (way && by_class(g, nlhs, a, way, up) && up) { Reply r; r.ok = false; r.msg = "the class refuses the type of its argument"; return r; }
    if (file.empty()) return mex::call(g, nlhs, a, m); arm_io(op); Reply r = mex::call(g, nlhs, a, m); IoSeen s = io_disarm(); if (s.eios || s.truncs || s.open_fails || s.shorts) c.st("fault_io"); return r; }
  // some query on every object: none may have changed
  void peek(char const *when, bool all) {
    static Op const none;
    for (int g = 0; g < 4; ++g) for (auto &kv : slots[g]) {
      Slot &s = kv.second; long n = mex::size_of(*s.o); auto ask = [&](std::string const &q) { long i = n > 0 ? 1 + long(peeks.below(u64(n))) : 0; if (i == 0 && (in(q_shelli, q) || q == "getTrianglegroundVertices")) return; query(mex::Gw(g), s, q, i, peeks.uni(-0.2, 0.2), nullptr, nullptr, none, when); };
      if (all) { if (g == 0) { for (auto q : q_shell0) ask(q); for (auto q : q_shelly) ask(q); for (auto q : q_shelli) ask(q); } else if (g == 1) { for (auto q : q_mesh) ask(q); } else if (g == 2) { for (auto q : q_flat) ask(q); } else for (auto q : q_tg) ask(q); }
      else ask(g == 0 ? (peeks.chance(0.5) ? one(peeks, q_shell0) : one(peeks, q_shelli)) : g == 1 ? one(peeks, q_mesh) : g == 2 ? one(peeks, q_flat) : one(peeks, q_tg));
    }
  }
  void refuse(mex::Gw g, int nlhs, std::vector<Val> const &a, std::string const &why, Op const &op) {
    ++calls; ++bad; Reply r = run(g, nlhs, a, 0, op); ++c.oracle_checks; std::string name = std::string(mex::gw_name[g]) + "('" + (a.empty() || a[0].kind != 's' ? "" : a[0].s) + "') with " + why; c.ev(name + (r.ok ? " accepted" : " refused")); c.st("bad_calls");
    if (r.ok) violate("C20/accepted", name + " came back without an error");
    peek(" after a refused command", false);
  }
  // a command that cannot be used, made of one that can: true if there is such a variation
  bool twist(mex::Gw g, int nlhs, std::vector<Val> a, long n, Op const &op, bool arity) {
    size_t at = size_t(op.i("at")), how = size_t(op.i("how")); bool handle = a.size() > 1 && a[1].kind == 'h'; std::vector<size_t> m, v, sc, ii, tx, hs;
    std::string cmd = a[0].s; bool idx = in(q_shelli, cmd) || cmd == "getTriangleground" || cmd == "getTrianglegroundVertices";
    for (size_t i = 1; i < a.size(); ++i) { if (a[i].kind == 'h') hs.push_back(i); else if (a[i].kind == 's') tx.push_back(i); else if (a[i].dim == std::vector<size_t>{4, 4}) m.push_back(i); else if (a[i].dim == std::vector<size_t>{3, 1}) v.push_back(i); else sc.push_back(i); }
    auto pick = [&](std::vector<size_t> const &x) { return x[at % x.size()]; }; auto shape = [&](size_t i, std::vector<size_t> d) { a[i].dim = d; size_t k = 1; for (size_t q : d) k *= q; a[i].d.resize(k, 0.5); };
    switch (op.i("twist")) {
    case 0: a[0].s = how % 4 == 0 ? "" : how % 4 == 1 ? cmd + "X" : how % 4 == 2 ? std::string("Size") : cmd.substr(0, cmd.size() - 1); if (a[0].s == "copy" || a[0].s == "x") return false; refuse(g, nlhs, a, "an unknown command", op); return true;
    case 1: if (!arity) return false; a.pop_back(); refuse(g, nlhs, a, a.empty() ? "no arguments" : "an argument missing", op); return true;
    case 2: if (!arity) return false; a.push_back(num(1)); refuse(g, nlhs, a, "an argument too many", op); return true;
    case 3: refuse(g, nlhs == 0 ? 1 : 2, a, "an output too many", op); return true;
    case 4: case 5: { std::vector<size_t> &w = !m.empty() && (v.empty() || at % 2) ? m : v; if (w.empty()) return false; size_t i = pick(w); bool mm = &w == &m;
      static std::vector<std::vector<size_t>> const md = {{4, 1}, {1, 4}, {3, 4}, {4, 3}, {0, 4}, {4, 0}, {1, 1}, {3, 3}, {0, 0}, {4, 5}, {5, 4}, {16, 1}, {2, 8}, {4, 4, 2}}, vd = {{2, 1}, {1, 1}, {3, 0}, {0, 1}, {4, 1}, {1, 3}, {3, 3}, {3, 2}, {0, 0}, {1, 0}, {2, 2}, {3, 4}, {6, 1}, {3, 1, 2}};
      auto &dd = mm ? md : vd; shape(i, dd[how % dd.size()]); std::string s; for (size_t q : a[i].dim) s += (s.empty() ? "" : " x ") + std::to_string(q); refuse(g, nlhs, a, "an array of " + s + " for " + (mm ? "4 x 4" : "3 x 1"), op); return true; }
    case 6: { std::vector<size_t> &w = !m.empty() ? m : v; if (w.empty()) return false; size_t i = pick(w); static char const *cl[] = {"single", "int32", "char", "int8", "logical", "uint64", "int16"}; a[i].cls = cl[how % 7]; if (a[i].cls == "logical") a[i].kind = 'l'; refuse(g, nlhs, a, "an array of " + a[i].cls, op); return true; }
    case 7: case 8: { if (!idx) return false; size_t i = a.size() - 1; double bad[] = {0, -1, double(n) + 1, double(n) + 4294967296.0, 4294967296.0 + 1, 1.5, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -1e300, 1e300, double(n) + 100, -2147483648.0, 9223372036854775808.0};
      double b = bad[how % 13]; std::string k = op.s("icls", "double"); a[i] = num(b); if (b == std::floor(b) && std::fabs(b) < 1e15 && (k == "int64" || (k == "uint64" && b >= 0) || (k == "int32" && std::fabs(b) < 2e9) || (k == "int8" && std::fabs(b) < 100))) a[i].cls = k; refuse(g, nlhs, a, fmt("number %.17g of %ld", b, n), op); return true; }
    case 9: { if (sc.empty()) return false; size_t i = pick(sc); static std::vector<std::vector<size_t>> const d = {{2, 1}, {1, 2}, {0, 0}, {0, 1}, {1, 1, 2}, {3, 3}}; shape(i, d[how % 6]); refuse(g, nlhs, a, "an array for a number", op); return true; }
    case 10: { if (tx.empty()) return false; size_t i = pick(tx); a[i] = how % 2 ? num(1) : mat(0, 0, {}); refuse(g, nlhs, a, "a number for a text", op); return true; }
    case 11: { if (hs.empty()) return false; size_t i = pick(hs); for (int q = 0; q < 4; ++q) { int k = int((size_t(q) + how) % 4); if (slots[k].empty()) continue; uint64_t h = slots[k].begin()->second.h; int need = i == 1 ? int(g) : cmd == "setupFlat" ? 2 : cmd == "setupMesh" ? 1 : cmd == "setPlane" ? -1 : int(g); if (k == need) continue; a[i].h = h; refuse(g, nlhs, a, std::string("a handle of ") + mex::gw_name[k], op); return true; } return false; }
    case 12: { if (!handle) return false; size_t i = pick(hs); if (how % 4 == 0) a[i].h = 0; else if (how % 4 == 1) a[i] = num(1); else if (how % 4 == 2) { a[i] = num(0, "uint64"); a[i].dim = {2, 1}; a[i].d = {0, 0}; } else a[i] = text("handle"); refuse(g, nlhs, a, how % 4 == 0 ? "handle 0" : "no handle", op); return true; }
    default: a[0] = num(1); refuse(g, nlhs, a, "no command", op); return true;
    }
  }
  // files
  std::string spill(Op const &op, bool obj) { std::vector<Tri> t = make_ground(op); std::string p = scratch() + fmt("/x%03ld.", files++) + (obj ? "obj" : "rdf"); put_file(p, obj ? obj_text(t, op.u("style"), op.i("share", 1) != 0) : rdf_text(t, op.u("style"), op.i("share", 1) != 0)); file = p; return p; }
  void unspill() { if (!file.empty()) del_file(file); file.clear(); }
  void remove(mex::Gw g, long k, Op const &op) {
    auto it = slots[g].find(k); if (it == slots[g].end()) return; std::vector<Val> a{text("delete"), hand(it->second.h)};
    if (op.n == "delete" && op.has("twist") && twist(g, 0, a, 0, op, true)) return;
    static Op const none; Reply r = faulty(g, 0, a, op.n == "delete" ? op : none); ++c.oracle_checks; if (!r.ok) violate("C20/verdict", std::string(mex::gw_name[g]) + "('delete') was refused: " + r.msg);
    slots[g].erase(it); c.ev(std::string(mex::gw_name[g]) + " deleted");
  }
  // whole numbers that are another number when cut to 32 bits
  static Val big(Op const &op) { double b[] = {4294967296.0 + 3, 8589934592.0 + 2, 4611686018427387904.0 + 1024, -4294967296.0 + 4, 4294967296.0 * 1024 + 1, -8589934592.0 + 7}; size_t k = size_t(op.i("big")) % 6; std::string c = op.s("icls", "double"); return num(b[k], c == "int64" ? "int64" : "double"); }
  void make(mex::Gw g, long k, Op const &op) {
    std::vector<Val> a{text("new")}; std::function<ObjP()> ref; std::string why; bool arity = true; Slot s; file.clear(); Pose ps; double mu = 0; std::string path;
    if (g == mex::SHELL) { Shape q = shape_of(op); double p[5]; double w[5] = {q.rx, q.mx, q.ry, q.my, q.ly}; a.push_back(inum(op, double(op.i("n", 5)))); for (int i = 0; i < 5; ++i) { p[i] = scalar(op, w[i]); a.push_back(snum(op, w[i])); } std::vector<double> pv(p, p + 5); long n = op.i("n", 5); if (op.has("big")) { a[1] = big(op); why = "a number of ribs out of range"; } ref = [pv, n] { return mex::make_shell(n, pv[0], pv[1], pv[2], pv[3], pv[4]); }; }
    else if (g == mex::FLAT) { if (op.i("blank")) { s.blank = true; ref = [] { return mex::make_flat(); }; } else { V3 o(op.d("ox"), op.d("oy"), op.d("oz")), n(op.d("nx"), op.d("ny"), op.d("nz", 1)); mu = scalar(op, op.d("mu")); a.push_back(snum(op, op.d("mu"))); a.push_back(vec(o)); a.push_back(vec(n)); ref = [=] { return mex::make_flat(mu, o, n); }; } }
    else if (g == mex::TG) { if (op.i("blank")) { s.blank = true; ref = [] { return mex::make_tg(); }; } else { V3 v[3]; for (int i = 0; i < 3; ++i) v[i] = V3(op.d(fmt("v%d", 3 * i)), op.d(fmt("v%d", 3 * i + 1)), op.d(fmt("v%d", 3 * i + 2))); mu = scalar(op, op.d("mu")); long id = op.i("id"); a.push_back(op.has("big") ? big(op) : inum(op, double(id))); if (op.has("big")) why = "an identifier out of range"; a.push_back(snum(op, op.d("mu"))); for (int i = 0; i < 3; ++i) a.push_back(vec(v[i])); V3 v0 = v[0], v1 = v[1], v2 = v[2]; ref = [=] { return mex::make_tg(id, mu, v0, v1, v2); }; } }
    else {
      long form = op.i("form"); arity = false; mu = scalar(op, op.d("mu2", 1)); ps = make_pose(V3(op.d("px"), op.d("py"), op.d("pz")), op.d("pyaw"), op.d("pcam"), op.d("ppit"));
      bool obj = form == 3 || form == 4 || form == 5 || form == 6; if (form) { path = spill(op, obj); a.push_back(text(path)); }
      switch (form) {
      case 0: ref = [] { return mex::make_mesh(); }; break;
      case 1: ref = [=] { return mex::make_mesh(path, nullptr, nullptr); }; break;
      case 2: a.push_back(aff(ps)); ref = [=] { return mex::make_mesh(path, &ps, nullptr); }; break;
      case 3: a.push_back(snum(op, op.d("mu2", 1))); ref = [=] { return mex::make_mesh(path, nullptr, &mu); }; break;
      case 4: a.push_back(snum(op, op.d("mu2", 1))); a.push_back(aff(ps)); ref = [=] { return mex::make_mesh(path, &ps, &mu); }; break;
      case 5: why = "an obj file without a friction"; break;
      case 6: a.push_back(aff(ps)); why = "an obj file with a pose for the friction"; break;
      case 7: a.push_back(snum(op, mu)); why = "an rdf file with a number for the pose"; break;
      case 8: a.push_back(snum(op, mu)); a.push_back(aff(ps)); why = "an rdf file with a friction"; break;
      case 9: a.back().s = op.i("style") % 2 ? "a" : ""; why = "a path too short"; break;
      default: a.back().s = scratch() + "/missing.rdf"; why = "a file that is not there"; break;
      }
    }
    if (!why.empty()) { refuse(g, 1, a, why, op); unspill(); return; }
    if (op.has("twist")) { if (twist(g, 1, a, 0, op, arity && !(op.i("twist") == 1 && s.blank && false))) { unspill(); return; } }
    Reply r = faulty(g, 1, a, op); if (!file.empty()) arm_io(op); Res q = lib::guarded(0, 0, [&] { s.o = ref(); }); if (!file.empty()) io_disarm(); unspill(); ++c.oracle_checks; std::string name = std::string(mex::gw_name[g]) + "('new')";
    if (r.ok != q.ok) violate("C20/verdict", name + (r.ok ? " came back normally where the object cannot be made: " + q.what : " was refused: " + r.msg));
    c.ev(name + (r.ok ? " made" : " refused")); if (!r.ok) { c.st("new_refused"); return; }
    if (!r.set || r.out.kind != 'h') violate("C20/output", name + " did not return a handle");
    static Op const none; remove(g, k, none); s.h = r.out.h; slots[g][k] = s; c.st(std::string("new_") + mex::gw_name[g]);
  }
  void call(mex::Gw g, long k, Op const &op) {
    auto it = slots[g].find(k); if (it == slots[g].end()) return; Slot &s = it->second; std::string cmd = op.s("c"); long n = mex::size_of(*s.o), i = n > 0 ? 1 + op.i("i") % n : 0; Pose ps = pose_of(op); Slot *other = nullptr; double sc = op.d("scale", 1); if (sc != 1) { ps.ex = sc * ps.ex; }
    file.clear(); bool isq = in(q_shell0, cmd) || in(q_shelly, cmd) || in(q_shelli, cmd) || in(q_flat, cmd) || in(q_tg, cmd) || in(q_mesh, cmd) || cmd == "checkTransformation" || cmd == "isApprox";
    if (cmd == "isApprox" || cmd == "copy" || cmd == "setPlane" || cmd == "setupFlat" || cmd == "setupMesh") { int og = cmd == "setupFlat" ? 2 : cmd == "setupMesh" ? 1 : int(g); auto j = slots[og].find(op.i("o")); if (j == slots[og].end()) return; other = &j->second; }
    std::vector<Val> a{text(cmd), hand(s.h)}; int nlhs = 1; std::function<double()> ref; bool arity = true; std::string why; uint64_t plane = 0;
    if (isq) {
      bool idx = in(q_shelli, cmd) || cmd == "getTrianglegroundVertices";
      if (op.has("twist")) { if (idx) a.push_back(num(double(i))); else if (in(q_shelly, cmd)) a.push_back(num(op.d("y"))); else if (cmd == "checkTransformation") a.push_back(aff(ps)); else if (other) a.push_back(hand(other->h)); if (twist(g, 1, a, n, op, true)) return; }
      if (idx && !i) { a.resize(2); a.push_back(inum(op, 1)); refuse(g, 1, a, "number 1 of 0", op); return; }
      query(g, s, cmd, i, op.d("y"), &ps, other, op, ""); c.ev(cmd); return;
    }
    if (cmd == "getTriangleground") {
      if (op.has("twist")) { a.push_back(num(double(i))); if (twist(g, 1, a, n, op, true)) return; a.pop_back(); }
      a.push_back(inum(op, double(i ? i : 1))); if (!i) { refuse(g, 1, a, "number 1 of 0", op); return; }
      Reply r = faulty(g, 1, a, op); ++c.oracle_checks; if (!r.ok) violate("C20/verdict", "mex_mesh('getTriangleground') was refused: " + r.msg); if (!r.set || r.out.kind != 'h') violate("C20/output", "mex_mesh('getTriangleground') did not return a handle");
      Slot q; q.h = r.out.h; q.o = mex::triangle(*s.o, i); static Op const none; remove(mex::TG, op.i("o"), none); slots[mex::TG][op.i("o")] = q; c.ev(fmt("triangle %ld of %ld", i, n)); Slot &z = slots[mex::TG][op.i("o")]; for (auto w : q_tg) query(mex::TG, z, w, 0, 0, nullptr, nullptr, none, " of a triangle of the mesh"); return;
    }
    if (cmd == "setupFlat" || cmd == "setupMesh") { a.push_back(hand(other->h)); a.push_back(aff(ps)); a.push_back(text(op.s("method"))); if (other->blank) return; std::string me = op.s("method"); ref = [=, &s] { return double(mex::setup(*s.o, *other->o, ps, me)); }; }
    else if (cmd == "resize") { long m = op.i("n", 3); nlhs = 0; a.push_back(op.has("big") ? big(op) : inum(op, double(m))); if (op.has("big")) why = "a number of ribs out of range"; ref = [=, &s] { mex::resize(*s.o, m); return 0.0; }; }
    else if (cmd == "translate") { nlhs = 0; a.push_back(vec(ps.o)); ref = [=, &s] { mex::translate(*s.o, ps.o); return 0.0; }; }
    else if (cmd == "rotate") { nlhs = 0; long ax = op.i("axis"); V3 x = ax == 0 ? V3(1, 0, 0) : ax == 1 ? V3(0, 1, 0) : ax == 2 ? V3(0, 0, 1) : ps.ex; double an = scalar(op, op.d("a")); a.push_back(snum(op, op.d("a"))); a.push_back(vec(x)); ref = [=, &s] { mex::rotate(*s.o, an, x); return 0.0; }; }
    else if (cmd == "transform") { nlhs = 0; a.push_back(aff(ps)); ref = [=, &s] { mex::transform(*s.o, ps); return 0.0; }; }
    else if (cmd == "copy") { nlhs = 0; a.push_back(hand(other->h)); ref = [=, &s] { mex::copy(*s.o, *other->o); return 0.0; }; }
    else if (cmd == "setOrigin" || cmd == "setNormal") { nlhs = 0; V3 v(op.d("x"), op.d("y"), op.d("z")); a.push_back(vec(v)); bool o = cmd == "setOrigin"; ref = [=, &s] { if (o) mex::set_origin(*s.o, v); else mex::set_normal(*s.o, v); return 0.0; }; }
    else if (cmd == "setFriction") { nlhs = 0; double m = scalar(op, op.d("mu")); a.push_back(snum(op, op.d("mu"))); ref = [=, &s] { mex::set_friction(*s.o, m); return 0.0; }; }
    else if (cmd == "setPlane") { nlhs = 0; Reply r = mex::call(g, 1, {text("getPlane"), hand(other->h)}, 0); if (!r.ok || r.out.kind != 'h') violate("C20/verdict", "mex_flat('getPlane') was refused: " + r.msg); plane = r.out.h; a.push_back(hand(plane)); ref = [=, &s] { mex::set_plane(*s.o, mex::ask(*other->o, "getPlane", 0, 0, nullptr, nullptr)); return 0.0; }; }
    else if (cmd == "load") {
      nlhs = 0; arity = false; long form = op.i("form"); bool obj = form == 2 || form == 3; std::string p = spill(op, obj); double m = scalar(op, op.d("mu2", 1)); a.push_back(text(p)); if (form == 2 || form == 4) a.push_back(snum(op, op.d("mu2", 1)));
      if (form == 1) ref = [=, &s] { mex::load(*s.o, p, nullptr); return 0.0; }; else if (form == 2) ref = [=, &s] { mex::load(*s.o, p, &m); return 0.0; };
      else if (form == 3) why = "an obj file without a friction"; else if (form == 4) why = "an rdf file with a friction"; else if (form == 5) { a[2].s = "rdf"; why = "a path too short"; } else { a[2].s = scratch() + "/missing.rdf"; why = "a file that is not there"; }
    }
    else return;
    struct Free { uint64_t h; Session &q; ~Free() { if (h) mex::drop_plane(h); q.unspill(); } } fr{plane, *this};
    if (!why.empty()) { refuse(g, nlhs, a, why, op); return; }
    if (op.has("twist") && twist(g, nlhs, a, n, op, arity)) return;
    bool moves = cmd == "translate" || cmd == "rotate"; Reply r; double want = 0; std::string name = std::string(mex::gw_name[g]) + "('" + cmd + "')";
    if (moves && (op.i("fail") || op.i("mxfail"))) { // a move that failed half way is settled by an absolute pose
      ++calls; long f = op.i("fail"); if (f > 0) alloc_arm(f, 1); r = mex::call(g, nlhs, a, op.i("mxfail")); long hit = f > 0 ? alloc_disarm() : 0; Res q = lib::guarded(0, 0, [&] { ref(); });
      if (!r.ok && !hit) violate("C20/verdict", name + " was refused: " + r.msg); if (!q.ok) violate("C20/verdict", name + ": the object fails: " + q.what); c.ev(name + (r.ok ? "" : " failed under memory exhaustion")); if (r.ok) return; c.st("fault_alloc"); ++faults;
      Pose p = mex::pose(*s.o); r = mex::call(g, 0, {text("transform"), hand(s.h), aff(p)}, 0); Res q2 = lib::guarded(0, 0, [&] { mex::transform(*s.o, p); }); if (r.ok != q2.ok) violate("C20/verdict", "mex_shell('transform') to the pose the shell has: " + r.msg + q2.what); return;
    }
    r = faulty(g, nlhs, a, op); if (!file.empty()) arm_io(op); Res q = lib::guarded(0, 0, [&] { want = ref(); }); if (!file.empty()) io_disarm(); ++c.oracle_checks;
    if (r.ok != q.ok) violate("C20/verdict", name + (r.ok ? " came back normally where the object fails: " + q.what : " was refused: " + r.msg));
    c.ev(name + (r.ok ? " done" : " refused")); c.st((r.ok ? "c_" : "refused_") + cmd); if (r.ok && cmd == "setPlane") s.blank = s.blank || other->blank; if (r.ok && cmd == "copy") s.blank = other->blank;
    if (r.ok && nlhs) { std::string d = differ(r, r.out.d, {want}, false); if (!d.empty()) violate("C20/value", name + ": " + d); c.log.add(want); }
  }
  void run(Trace const &t) {
    for (auto &op : t) {
      std::string gs = op.s("g", "s"); mex::Gw g = gs == "m" ? mex::MESH : gs == "f" ? mex::FLAT : gs == "t" ? mex::TG : mex::SHELL; long k = op.i("s") & 3;
      if (op.n == "new") make(g, k, op); else if (op.n == "delete") { remove(g, k, op); } else if (op.n == "call") call(g, k, op);
    }
    peek(" at the end", true); static Op const none;
    for (int g = 0; g < 4; ++g) while (!slots[g].empty()) remove(mex::Gw(g), slots[g].begin()->first, none);
  }
};
}
static void exec20(Trace const &t, Ctx &c) {
  long locks = mex::locks(), live[3]; u64 calls = 0, bad = 0, faults = 0;
  for (int k = 0; k < 3; ++k) { // what the first session leaves behind may be set up once; what every session leaves behind is not
    long before = lib_live(); { Session s(c); if (k == 0) s.run(t); else { Ctx quiet; std::map<std::string, u64> none; quiet.stats = &none; Session s2(quiet); s2.run(t); } if (k == 0) { calls = s.calls; bad = s.bad; faults = s.faults; } }
    live[k] = lib_live() - before; ++c.oracle_checks;
    if (mex::locks() != locks) violate("C20/lock", fmt("every handle is deleted, the gateways are still locked %ld times", mex::locks() - locks));
    if (live[k] <= 0) break; if (k == 2) violate("C20/leak", fmt("every handle is deleted, %ld blocks of memory are left behind each time", live[2]));
  }
  c.st("calls", calls); c.st("faults", faults); c.nontrivial = calls > 4 && bad + faults > 0;
}
void add_mex(std::vector<Property> &v) { classes(); v.push_back({"C20", "a MATLAB session: shells, meshes, planes and triangles made, driven, asked and deleted through the four gateways, with unusable variations of the commands, memory exhaustion in the library and in MATLAB, and files that cannot be read; non-trivial: more than 4 commands and at least one refused or failed", gen20, exec20}); }
}
