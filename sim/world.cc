#include "world.hpp"
#include <algorithm>
#include <set>

namespace sim {

// ================================================================ vocabulary
static V3 mulM(V3 const (&c)[3], V3 v) { return v.x * c[0] + v.y * c[1] + v.z * c[2]; }
Pose make_pose(V3 o, double yaw, double cam, double pit) {
  double cy = std::cos(yaw), sy = std::sin(yaw), cc = std::cos(cam), sc = std::sin(cam), cp = std::cos(pit), sp = std::sin(pit);
  V3 Z[3] = {V3(cy, sy, 0), V3(-sy, cy, 0), V3(0, 0, 1)}, X[3] = {V3(1, 0, 0), V3(0, cc, sc), V3(0, -sc, cc)}, Y[3] = {V3(cp, 0, -sp), V3(0, 1, 0), V3(sp, 0, cp)};
  Pose p; p.o = o; p.ex = mulM(Z, mulM(X, Y[0])); p.ey = mulM(Z, mulM(X, Y[1])); p.ez = mulM(Z, mulM(X, Y[2])); return p;
}
Pose pose_of(Op const &op) { return make_pose(V3(op.d("x"), op.d("y"), op.d("z")), op.d("yaw"), op.d("cam"), op.d("pit")); }
void put_pose(Op &op, V3 o, double yaw, double cam, double pit) { op.set("x", o.x).set("y", o.y).set("z", o.z).set("yaw", yaw).set("cam", cam).set("pit", pit); }
Shape shape_of(Op const &op) { Shape s; s.rx = op.d("rx", 0.313); s.mx = op.d("mx", 9); s.ry = op.d("ry", 0.165); s.my = op.d("my", 9); s.ly = op.d("ly", 0.16); return s; }

static double wave(Rng &r, double x, double y, double const (&k)[12]) { (void)r; return k[0] * std::sin(k[1] * x + k[2] * y + k[3]) + k[4] * std::sin(k[5] * x + k[6] * y + k[7]) + k[8] * x + k[9] * y; }
std::vector<Tri> make_ground(Op const &op) {
  std::string kind = op.s("kind", "hf"); Rng r(op.u("seed", 1));
  double cx = op.d("cx"), cy = op.d("cy"), cz = op.d("cz"), d = op.d("d", 0.1), amp = op.d("amp", 0.03);
  long nx = op.i("nx", 6), ny = op.i("ny", 6); double mu0 = op.d("mu", 0.9); bool cmu = op.i("cmu", 0) != 0; double mur = op.d("mur", 0.8); bool muq = op.i("muq", 0) != 0; double muz = op.d("muz", 0);
  std::vector<Tri> t;
  auto mu = [&]() { double u = cmu ? mu0 : mu0 + mur * (r.uni() - 0.5), m = cmu ? mu0 : std::max(0.0, muq ? u : std::round(u * 64) / 64); return !cmu && muz > 0 && r.chance(muz) ? 0.0 : m; };
  if (kind == "soup") {
    long n = op.i("n", 20); double sp = op.d("d", 0.3);
    for (long i = 0; i < n; ++i) {
      Tri q; V3 c0(cx + r.uni(-1, 1) * sp, cy + r.uni(-1, 1) * sp, cz + r.uni(-1, 1) * sp * 0.7); double s = r.logu(0.02, 2.0) * sp;
      for (int k = 0; k < 3; ++k) q.v[k] = c0 + V3(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s) * (r.chance(0.5) ? 0.2 : 1)); q.mu = mu(); t.push_back(q);
    }
  } else { // height field
    double k[12]; for (int i = 0; i < 12; ++i) k[i] = 0;
    k[0] = amp * r.uni(-1, 1); k[1] = r.uni(-15, 15); k[2] = r.uni(-15, 15); k[3] = r.uni(0, 6); k[4] = amp * r.uni(-1, 1); k[5] = r.uni(-40, 40); k[6] = r.uni(-40, 40); k[7] = r.uni(0, 6);
    k[8] = op.d("sx"); k[9] = op.d("sy");
    double rough = op.d("rough", 0), step = op.d("step", 0), sxp = op.d("stepx", 0); bool exact = op.i("exact", 0) != 0;
    std::vector<double> h(size_t((nx + 1) * (ny + 1)));
    auto X = [&](long i) { return cx + (double(i) - double(nx) / 2) * d; }; auto Y = [&](long j) { return cy + (double(j) - double(ny) / 2) * d; };
    for (long j = 0; j <= ny; ++j) for (long i = 0; i <= nx; ++i) {
      double x = X(i) - cx, y = Y(j) - cy, z = exact ? 0 : wave(r, x, y, k);
      if (rough > 0) z += rough * r.uni(-1, 1);
      if (step != 0 && x > sxp) z += step;
      h[size_t(j * (nx + 1) + i)] = cz + z;
    }
    auto P = [&](long i, long j) { return V3(X(i), Y(j), h[size_t(j * (nx + 1) + i)]); };
    double hole = op.d("hole", 0);
    for (long j = 0; j < ny; ++j) for (long i = 0; i < nx; ++i) {
      if (hole > 0 && r.chance(hole)) continue;
      Tri a, b; bool flip = r.chance(0.5);
      if (!flip) { a.v[0] = P(i, j); a.v[1] = P(i + 1, j); a.v[2] = P(i + 1, j + 1); b.v[0] = P(i, j); b.v[1] = P(i + 1, j + 1); b.v[2] = P(i, j + 1); }
      else { a.v[0] = P(i, j); a.v[1] = P(i + 1, j); a.v[2] = P(i, j + 1); b.v[0] = P(i + 1, j); b.v[1] = P(i + 1, j + 1); b.v[2] = P(i, j + 1); }
      a.mu = mu(); b.mu = r.chance(0.7) ? a.mu : mu(); t.push_back(a); t.push_back(b);
    }
  }
  size_t base = t.size();
  for (long i = 0, n = op.i("wall", 0); i < n; ++i) { // vertical or overhanging pieces
    Tri q; V3 c0(cx + r.uni(-1, 1) * 0.5, cy + r.uni(-1, 1) * 0.5, cz); double a = r.uni(0, 6.3), w = r.uni(0.05, 0.6), hh = r.uni(0.02, 0.4); V3 e(std::cos(a) * w, std::sin(a) * w, 0);
    q.v[0] = c0 - e; q.v[1] = c0 + e; auto lean = [&] { double k = r.uni(); return k < 0.4 ? 0 : k < 0.65 ? (r.chance(0.5) ? 1 : -1) * std::pow(10, r.uni(-12, -7)) : r.uni(-0.05, 0.05); }; double lx = lean(), ly = lean(); q.v[2] = c0 + V3(lx, ly, hh); q.mu = mu(); t.push_back(q);
  }
  for (long i = 0, n = op.i("roof", 0); i < n; ++i) { // pieces above the hub
    Tri q; double z = cz + r.uni(0.1, 1.5); V3 c0(cx + r.uni(-1, 1) * 0.3, cy + r.uni(-1, 1) * 0.3, z); double s = r.uni(0.1, 1);
    for (int k = 0; k < 3; ++k) q.v[k] = c0 + V3(r.uni(-s, s), r.uni(-s, s), r.uni(-0.1, 0.1)); q.mu = mu(); t.push_back(q);
  }
  for (long i = 0, n = op.i("dup", 0); i < n && base; ++i) t.push_back(t[r.below(base)]);
  for (long i = 0, n = op.i("deg", 0); i < n && base; ++i) { // triangles without area
    Tri s = t[r.below(base)], q; q.mu = s.mu; int m = int(r.below(4));
    if (m == 0) { q.v[0] = q.v[1] = q.v[2] = s.v[0]; }
    else if (m == 1) { q.v[0] = s.v[0]; q.v[1] = s.v[1]; q.v[2] = s.v[0]; }
    else if (m == 2) { q.v[0] = s.v[0]; q.v[1] = s.v[1]; q.v[2] = 0.5 * (s.v[0] + s.v[1]); }
    else { q.v[0] = s.v[0]; q.v[1] = s.v[1]; q.v[2] = s.v[0] + 1e-9 * (s.v[2] - s.v[0]); }
    t.insert(t.begin() + long(r.below(t.size() + 1)), q);
  }
  if (op.i("mir", 0)) { // the same ground once more, turned half round about an axis or a point (what one piece does the other undoes)
    std::vector<Tri> u; double mz = op.d("mz");
    if (op.i("mir") == 3) for (auto &q : t) for (int k = 0; k < 3; ++k) q.v[k].y = cy + std::fabs(q.v[k].y - cy); // on one side only
    for (auto &q : t) { Tri w = q; for (int k = 0; k < 3; ++k) w.v[k] = V3(2 * cx - q.v[k].x, op.i("mir") == 1 ? q.v[k].y : 2 * cy - q.v[k].y, 2 * mz - q.v[k].z); u.push_back(q); u.push_back(w); }
    t.swap(u);
  }
  // restriction used by the minimiser: keep a range of the triangles
  long from = op.i("from", 0), upto = op.i("upto", long(t.size()));
  if (from < 0) from = 0; if (upto > long(t.size())) upto = long(t.size());
  if (from > 0 || upto < long(t.size())) { std::vector<Tri> u; for (long i = from; i < upto; ++i) u.push_back(t[size_t(i)]); t.swap(u); }
  reorder(t, op.u("perm", 0), op.u("wind", 0));
  return t;
}
void reorder(std::vector<Tri> &t, u64 perm, u64 wind) {
  if (perm == 1) std::reverse(t.begin(), t.end());
  else if (perm > 1) { Rng q(perm); for (size_t i = t.size(); i > 1; --i) std::swap(t[i - 1], t[q.below(i)]); }
  if (wind) { Rng q(wind); for (auto &x : t) { u64 m = q.below(6); if (m & 1) std::swap(x.v[0], x.v[1]); if (m >= 2) { V3 a = x.v[0]; x.v[0] = x.v[1]; x.v[1] = x.v[2]; x.v[2] = a; } } }
}
std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
// the same number, spelled in another way
static std::string spell(double v, Rng *r) {
  if (!r || r->chance(0.5)) return num(v);
  char b[40]; switch (r->below(5)) {
    case 0: snprintf(b, 40, "%.17e", v); return b;
    case 1: snprintf(b, 40, "%.16E", v); return strtod(b, nullptr) == v ? b : num(v);
    case 2: return std::signbit(v) ? num(v) : "+" + num(v);
    case 3: { std::string t = num(v); if (t.size() > 2 && t[0] == '0' && t[1] == '.') t.erase(0, 1); else if (t.size() > 3 && t[0] == '-' && t[1] == '0' && t[2] == '.') t.erase(1, 1); return t; }
    default: { std::string t = num(v); if (t.find_first_not_of("-0123456789") == std::string::npos) t += r->chance(0.5) ? "." : ".000"; else if (t[0] != '-') t = "00" + t; return t; }
  }
}
static void nodes_of(std::vector<Tri> const &t, bool share, std::vector<V3> &nodes, std::vector<long> &ix) {
  std::map<std::vector<double>, long> seen;
  for (auto &q : t) for (int k = 0; k < 3; ++k) {
    std::vector<double> key{q.v[k].x, q.v[k].y, q.v[k].z};
    if (share) { auto it = seen.find(key); if (it != seen.end()) { ix.push_back(it->second); continue; } }
    seen[key] = long(nodes.size()); ix.push_back(long(nodes.size())); nodes.push_back(q.v[k]);
  }
}
// style: bit 0 blank lines, 1 comments, 2 CRLF, 3 no final newline, 4 bare section names, 5 interleave sections, 6 wide spacing
std::string rdf_text(std::vector<Tri> const &t, u64 style, bool share) {
  std::vector<V3> nodes; std::vector<long> ix; nodes_of(t, share, nodes, ix); Rng r(style * 77 + 5), rs(style * 91 + 7), *sp = style & 128 ? &rs : nullptr;
  bool blank = style & 1, com = style & 2, crlf = style & 4, nonl = style & 8, bare = style & 16, inter = style & 32, wide = style & 64;
  std::string o, nl = crlf ? "\r\n" : "\n", sep = wide ? "   " : " ", lead = wide ? "  " : "";
  auto noise = [&] { if (com && r.chance(0.15)) o += (r.chance(0.5) ? "% note 1 2 3" : r.chance(0.5) ? "# note" : "{ note }") + nl; if (blank && r.chance(0.15)) o += nl; };
  if (com) o += "{ mesh }" + nl;
  size_t half = inter ? t.size() / 2 : t.size(), done = 0; size_t nodes_done = 0;
  for (int part = 0; part < (inter ? 2 : 1); ++part) {
    size_t upto = part == 0 ? half : t.size();
    o += (bare ? std::string("NODES") : std::string("[NODES]")) + nl;
    long need = -1; for (size_t i = 0; i < upto * 3; ++i) need = std::max(need, ix[i]);
    for (; long(nodes_done) <= need; ++nodes_done) { noise(); V3 v = nodes[nodes_done]; o += lead + std::to_string(nodes_done) + sep + spell(v.x, sp) + sep + spell(v.y, sp) + sep + spell(v.z, sp) + nl; }
    o += (bare ? std::string("ELEMENTS") : std::string("[ELEMENTS]")) + nl;
    for (; done < upto; ++done) { noise(); o += lead + std::to_string(ix[done * 3]) + sep + std::to_string(ix[done * 3 + 1]) + sep + std::to_string(ix[done * 3 + 2]) + sep + spell(t[done].mu, sp) + nl; }
  }
  if (blank) o += nl;
  if (nonl && o.size() > nl.size()) { size_t e = o.find_last_not_of("\r\n"); if (e != std::string::npos) o.resize(e + 1); }
  return o;
}
std::string obj_text(std::vector<Tri> const &t, u64 style, bool share) {
  std::vector<V3> nodes; std::vector<long> ix; nodes_of(t, share, nodes, ix); Rng r(style * 77 + 5), rs(style * 91 + 7), *sp = style & 128 ? &rs : nullptr;
  bool blank = style & 1, com = style & 2, crlf = style & 4, nonl = style & 8, slash = style & 16, inter = style & 32, wide = style & 64;
  std::string o, nl = crlf ? "\r\n" : "\n", sep = wide ? "  " : " ";
  auto noise = [&] { if (com && r.chance(0.15)) o += (r.chance(0.5) ? "# note" : r.chance(0.5) ? "o thing" : "vn 0 0 1") + nl; if (blank && r.chance(0.15)) o += nl; };
  size_t nd = 0;
  auto emit = [&](long need) { for (; long(nd) <= need; ++nd) { noise(); o += "v" + sep + spell(nodes[nd].x, sp) + sep + spell(nodes[nd].y, sp) + sep + spell(nodes[nd].z, sp) + nl; } };
  if (!inter) emit(long(nodes.size()) - 1);
  for (size_t i = 0; i < t.size(); ++i) {
    if (inter) emit(std::max({ix[i * 3], ix[i * 3 + 1], ix[i * 3 + 2]}));
    noise(); o += "f";
    for (int k = 0; k < 3; ++k) { o += sep + std::to_string(ix[i * 3 + size_t(k)] + 1); if (slash) o += "//1"; }
    o += nl;
  }
  if (nonl && o.size() > nl.size()) { size_t e = o.find_last_not_of("\r\n"); if (e != std::string::npos) o.resize(e + 1); }
  return o;
}

// ================================================================ snapshots
std::vector<double> snapshot(lib::Shell const &s, bool verdict, bool with_print) {
  std::vector<double> v; size_t n = s.size();
  auto add = [&](V3 a) { v.push_back(a.x); v.push_back(a.y); v.push_back(a.z); };
  auto addo = [&](Out const &o) { add(o.p); add(o.n); v.push_back(o.fr); v.push_back(o.depth); v.push_back(o.area); v.push_back(o.vol); };
  auto addp = [&](Pose const &p) { add(p.o); add(p.ex); add(p.ey); add(p.ez); };
  v.push_back(verdict); v.push_back(double(n)); addo(s.out()); addp(s.affine()); add(s.rel()); add(s.euler()); addp(s.pose()); Box b = s.bbox(); add(b.lo); add(b.hi);
  if (with_print) { Hash h; h.add(s.print()); v.push_back(double(h.h >> 12)); } else v.push_back(0);
  for (size_t i = 0; i < n; ++i) { addo(s.out(i)); addp(s.affine(i)); add(s.rel(i)); ref::Rib r = s.rib(i); v.push_back(r.R); v.push_back(r.y); v.push_back(r.W); v.push_back(s.rib_angle(i)); }
  return v;
}
bool same_bits(std::vector<double> const &a, std::vector<double> const &b, size_t *where) {
  if (a.size() != b.size()) { if (where) *where = std::min(a.size(), b.size()); return false; }
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i] != a[i] && b[i] != b[i]) continue;
    if (std::memcmp(&a[i], &b[i], 8)) { if (where) *where = i; return false; }
  }
  return true;
}
std::string where_in_snapshot(size_t i, size_t n) {
  static char const *fields[] = {"point.x", "point.y", "point.z", "normal.x", "normal.y", "normal.z", "friction", "depth", "area", "volume"};
  if (i == 0) return "verdict";
  if (i == 1) return "size";
  if (i < 12) return std::string("shell ") + fields[i - 2];
  if (i < 24) return "shell contact frame"; if (i < 27) return "shell relative angles"; if (i < 30) return "euler angles"; if (i < 42) return "pose"; if (i < 48) return "bounding box"; if (i == 48) return "printed text";
  size_t k = (i - 49) / 29, f = (i - 49) % 29; if (k >= n) return "rib count";
  return fmt("rib %zu ", k) + (f < 10 ? fields[f] : f < 22 ? "contact frame" : f < 25 ? "relative angles" : "dimensions");
}
void log_values(Ctx &c, std::vector<double> const &v) {
  for (double x : v) c.log.add(x);
  if (c.verbose && v.size() > 12) fprintf(stderr, "    verdict=%g n=%g shell p=(%.9g %.9g %.9g) n=(%.6g %.6g %.6g) fr=%.9g depth=%.9g area=%.9g vol=%.9g\n", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
}

// ================================================================ comparing with the reference
Box ribs_box(std::vector<ref::Rib> const &ribs, Pose const &ps) {
  Box b; b.lo = V3(1e300, 1e300, 1e300); b.hi = V3(-1e300, -1e300, -1e300);
  V3 e(std::sqrt(std::max(0.0, 1 - ps.ey.x * ps.ey.x)), std::sqrt(std::max(0.0, 1 - ps.ey.y * ps.ey.y)), std::sqrt(std::max(0.0, 1 - ps.ey.z * ps.ey.z)));
  for (auto &r : ribs) {
    V3 c = ref::at(ps, V3(0, r.y, 0));
    b.lo = V3(std::min(b.lo.x, c.x - r.R * e.x), std::min(b.lo.y, c.y - r.R * e.y), std::min(b.lo.z, c.z - r.R * e.z));
    b.hi = V3(std::max(b.hi.x, c.x + r.R * e.x), std::max(b.hi.y, c.y + r.R * e.y), std::max(b.hi.z, c.z + r.R * e.z));
  }
  return b;
}
// the four samples of a rib find the same ground in both sets
static bool same_hits(std::vector<Tri> const &a, std::vector<Tri> const &b, Pose const &ps, ref::Rib const &r) {
  V3 C = ref::at(ps, V3(0, r.y, 0)); double dx = 0.1 * r.R, dy = 0.3 * r.W; V3 at4[4] = {C + dx * ps.ex, C - dx * ps.ex, C + dy * ps.ey, C - dy * ps.ey};
  for (V3 const &q : at4) { ref::Hit x = ref::sample(a, q.x, q.y), y = ref::sample(b, q.x, q.y); if (x.ok != y.ok || x.amb != y.amb || x.z != y.z || x.mu != y.mu) return false; }
  return true;
}
Want want_mesh(std::vector<Tri> const &t, Pose const &ps, ref::Rib const &r, std::vector<ref::Rib> const &ribs, bool geometric, Box const &rep) {
  Want w;
  if (geometric) { w.o = ref::geometric(t, ps, r); w.skip = w.o.amb; return w; }
  // sampling: which triangles count as "around the shell" is settled where the tightest and the loosest reading agree
  Box tight = ref::grow(ribs_box(ribs, ps), -1e-9);
  std::vector<Tri> a; for (auto &q : t) if (ref::meets(ref::box(q), tight)) a.push_back(q);
  if (same_hits(a, t, ps, r)) w.o = ref::sampling(a, ps, r);
  else {
    std::vector<Tri> m; bool edge = false; for (auto &q : t) { Box qb = ref::box(q); bool in = ref::meets(qb, rep); if (ref::meets(qb, ref::grow(rep, 1e-9)) != ref::meets(qb, ref::grow(rep, -1e-9))) edge = true; if (in || ref::meets(qb, tight)) m.push_back(q); }
    w.o = ref::sampling(m, ps, r); if (edge) w.o.amb = true;
  }
  w.skip = w.o.amb; return w;
}
Want want_flat(ref::Flat const &f, Pose const &ps, ref::Rib const &r, bool geometric) { Want w; w.o = geometric ? ref::geometric(f, ps, r) : ref::sampling(f, ps, r); w.skip = w.o.amb; return w; }

std::string compare(Out const &g, Out const &w, ref::Rib const &r, Pose const &ps, std::string &what) {
  double sc = 1 + ref::maxabs(ps.o) * 1e-9 / 1e-6 * 1e-3; (void)sc;
  double co = std::max(1.0, ref::maxabs(ps.o));
  double ptol = w.ptol * r.R + 1e-9 * co, vref = M_PI * r.R * r.R * r.W;
  // relative noise of volume-weighted means grows as the total volume shrinks
  double cond = w.contact ? std::min(1.0, 1e-13 * co * co * (1 + vref / std::max(w.vol, 1e-300))) : 0;
  double vtol = 1e-6 * w.vol + 1e-11 * vref * co, atol = w.atol + 1e-6 * w.area + 1e-8 * r.R * r.W * co;
  // the chord is 2 sqrt(d (2R - d)): where a rib barely touches, the rounding of far coordinates in d is a large part of it
  if (w.contact || g.area != 0) { double dd = 1e-14 * co, d0 = w.contact ? std::max(0.0, w.depth) : 0; atol += 2 * r.W * (std::sqrt(2 * r.R * (d0 + dd)) - std::sqrt(2 * r.R * std::max(0.0, d0 - dd))); }
  double t_p = ptol + cond * r.R, t_n = w.ntol + 1e-9 * co + 2 * cond, t_f = 1e-7 + cond * (1 + w.fr), t_d = ptol + cond * r.R;
  auto d = [&](char const *n, double a, double b, double tol) -> bool { if (std::fabs(a - b) <= tol) return false; what = n; return true; };
  std::string m;
  if (!ref::finite(g.p) || !ref::finite(g.n) || !std::isfinite(g.fr + g.depth + g.area + g.vol)) { what = "finite"; return fmt("non-finite output p=(%g %g %g) n=(%g %g %g) fr=%g depth=%g area=%g vol=%g", g.p.x, g.p.y, g.p.z, g.n.x, g.n.y, g.n.z, g.fr, g.depth, g.area, g.vol); }
  if (d("area", g.area, w.area, atol)) return fmt("area %.12g, expected %.12g", g.area, w.area);
  if (d("volume", g.vol, w.vol, vtol)) return fmt("volume %.12g, expected %.12g", g.vol, w.vol);
  if (d("friction", g.fr, w.fr, t_f)) return fmt("friction %.12g, expected %.12g", g.fr, w.fr);
  if (d("depth", g.depth, w.depth, t_d)) return fmt("depth %.12g, expected %.12g", g.depth, w.depth);
  if (ref::maxabs(g.p - w.p) > t_p) { what = "point"; return fmt("point (%.12g %.12g %.12g), expected (%.12g %.12g %.12g)", g.p.x, g.p.y, g.p.z, w.p.x, w.p.y, w.p.z); }
  if (ref::maxabs(g.n - w.n) > t_n) { what = "normal"; return fmt("normal (%.12g %.12g %.12g), expected (%.12g %.12g %.12g)", g.n.x, g.n.y, g.n.z, w.n.x, w.n.y, w.n.z); }
  return "";
}

static bool close(double a, double b, double rel, double abs) { return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs; }
static Pose rot_zxy(V3 a) { return make_pose(V3(), a.x, a.y, a.z); }
static double frame_diff(Pose const &a, Pose const &b) { return std::max(ref::maxabs(a.ex - b.ex), std::max(ref::maxabs(a.ey - b.ey), ref::maxabs(a.ez - b.ez))); }
static Pose seen_from(Pose const &w, Pose const &f) { // f^T w
  Pose r; auto col = [&](V3 v) { return V3(ref::dot(f.ex, v), ref::dot(f.ey, v), ref::dot(f.ez, v)); };
  r.ex = col(w.ex); r.ey = col(w.ey); r.ez = col(w.ez); return r;
}
static void check_frame(Ctx &c, Pose const &f, V3 p, V3 n, V3 wy, std::string const &tag, std::string const &who) {
  V3 x = ref::cross(wy, n); double s = ref::norm(x);
  if (!(std::fabs(ref::norm(n) - 1) < 1e-6)) violate(tag + "/normal-length", who + " contact normal is not of unit length");
  ++c.oracle_checks;
  if (!(ref::maxabs(f.o - p) <= 1e-12 * (1 + ref::maxabs(p)))) violate(tag + "/frame-origin", who + " contact frame is not at the contact point");
  if (!(ref::maxabs(f.ez - n) <= 1e-12)) violate(tag + "/frame-axis", who + " contact frame third axis is not the contact normal");
  if (s < 1e-4) return; // no direction defined
  double tol = 1e-9 / s + 1e-9; x = (1 / s) * x; V3 y = ref::cross(n, x);
  if (!(ref::maxabs(f.ex - x) <= tol + 1e-6) || !(ref::maxabs(f.ey - y) <= tol + 1e-6)) violate(tag + "/frame", who + " contact frame is not the right-handed frame on the contact normal and the wheel axis");
}
void check_aggregates(Ctx &c, lib::Shell const &s, Pose const &wheel, std::string const &tag, u64 salt) {
  size_t n = s.size(); std::vector<Out> o; double V = 0, A = 0, F = 0, D = 0; V3 P, N, P0, N0; double F0 = 0;
  for (size_t i = 0; i < n; ++i) { o.push_back(s.out(i)); }
  for (auto &x : o) { V += x.vol; A += x.area; F += x.fr * x.vol; D += x.depth * x.vol; P = P + x.vol * x.p; N = N + x.vol * x.n; P0 = P0 + x.p; N0 = N0 + x.n; F0 += x.fr; }
  Out g = s.out(); double co = 1 + ref::maxabs(wheel.o); c.oracle_checks += 6;
  if (!close(g.area, A, 1e-9, 1e-15)) violate(tag + "/area-sum", fmt("shell area %.12g, ribs sum to %.12g", g.area, A));
  if (!close(g.vol, V, 1e-9, 1e-16)) violate(tag + "/volume-sum", fmt("shell volume %.12g, ribs sum to %.12g", g.vol, V));
  double e = lib::eps();
  if (std::fabs(V - e) > 1e-6 * e) {
    bool light = V < e; if (light) { V3 q = (1.0 / double(n)) * P0; P = q; N = N0; F = F0 / double(n); D = 0; } else { P = (1 / V) * P; F /= V; D /= V; N = (1 / V) * N; }
    c.st(light ? "agg_plain_mean" : "agg_weighted_mean");
    if (!(ref::maxabs(g.p - P) <= 1e-9 * co)) violate(tag + "/point-mean", fmt("shell point (%.12g %.12g %.12g), %s mean of the ribs is (%.12g %.12g %.12g)", g.p.x, g.p.y, g.p.z, light ? "plain" : "weighted", P.x, P.y, P.z));
    if (!close(g.fr, F, 1e-9, 1e-12)) violate(tag + "/friction-mean", fmt("shell friction %.12g, mean of the ribs is %.12g", g.fr, F));
    if (!close(g.depth, D, 1e-9, light ? 1.1 * e : 1e-12)) violate(tag + "/depth-mean", fmt("shell depth %.12g, expected %.12g", g.depth, D));
    double nn = ref::norm(N) / (light ? double(n) : 1); if (nn > 1e-6 && ref::maxabs(g.n - ref::unit(N)) > 1e-9 / nn) violate(tag + "/normal-mean", "shell normal is not the renormalised mean of the rib normals");
  }
  // list forms
  size_t lens[4] = {0, n, n + 3, n > 1 ? n - 1 : 0}; size_t k = lens[salt % 4];
  lib::Shell::Lists l; s.lists(k, l); c.st("agg_lists");
  bool len_ok = l.p.size() == n && l.n.size() == n && l.fr.size() == n && l.depth.size() == n && l.area.size() == n && l.vol.size() == n && l.aff.size() == n && l.rel.size() == n;
  if (!len_ok) violate(tag + "/list-length", fmt("list forms given vectors of length %zu do not return %zu entries", k, n));
  auto eq = [](double a, double b) { return a == b || (a != a && b != b); }; auto eqv = [&](V3 a, V3 b) { return eq(a.x, b.x) && eq(a.y, b.y) && eq(a.z, b.z); };
  for (size_t i = 0; i < n; ++i) {
    V3 ra = s.rel(i); Pose f = s.affine(i);
    if (!(eqv(l.p[i], o[i].p) && eqv(l.n[i], o[i].n) && eq(l.fr[i], o[i].fr) && eq(l.depth[i], o[i].depth) && eq(l.area[i], o[i].area) && eq(l.vol[i], o[i].vol))) violate(tag + "/list-value", fmt("list form differs from the indexed form at rib %zu", i));
    if (!(eqv(l.rel[i], ra) && eqv(l.aff[i].o, f.o) && eqv(l.aff[i].ex, f.ex) && eqv(l.aff[i].ey, f.ey) && eqv(l.aff[i].ez, f.ez))) violate(tag + "/list-value", fmt("list form of frames or angles differs from the indexed form at rib %zu", i));
    check_frame(c, f, o[i].p, o[i].n, wheel.ey, tag, fmt("rib %zu", i));
    if (std::fabs(ref::norm(f.ex) - 1) < 1e-6) {
      ra.x += s.rib_angle(i); // the rib's own surface angle is taken off the first angle
      if (!(frame_diff(rot_zxy(ra), seen_from(wheel, f)) <= 1e-6)) violate(tag + "/angles", fmt("relative angles of rib %zu are not those of the wheel frame seen from the contact frame", i));
    }
  }
  Pose f = s.affine(); check_frame(c, f, g.p, g.n, wheel.ey, tag, "shell");
  if (std::fabs(ref::norm(f.ex) - 1) < 1e-6 && std::fabs(ref::norm(f.ez) - 1) < 1e-6 && frame_diff(rot_zxy(s.rel()), seen_from(wheel, f)) > 1e-6) violate(tag + "/angles", "relative angles of the shell are not those of the wheel frame seen from the contact frame");
}
void check_finite(Ctx &c, lib::Shell const &s, Pose const &wheel, double mulo, double muhi, size_t ntri, std::string const &tag, bool flat) {
  (void)flat; size_t n = s.size(); double const t = 1e-6; bool any = false;
  auto one = [&](Out const &o, std::string const &who, double R, double W) {
    ++c.oracle_checks;
    if (!ref::finite(o.p) || !ref::finite(o.n) || !std::isfinite(o.fr) || !std::isfinite(o.depth) || !std::isfinite(o.area) || !std::isfinite(o.vol))
      violate(tag + "/non-finite", fmt("%s: p=(%g %g %g) n=(%g %g %g) friction=%g depth=%g area=%g volume=%g", who.c_str(), o.p.x, o.p.y, o.p.z, o.n.x, o.n.y, o.n.z, o.fr, o.depth, o.area, o.vol));
    if (!(std::fabs(ref::norm(o.n) - 1) <= 1e-6)) violate(tag + "/normal-length", fmt("%s: normal of length %.9g", who.c_str(), ref::norm(o.n)));
    bool contact = o.fr != 0 || o.area != 0 || o.vol != 0; any = any || contact;
    if (o.fr < -t || o.fr > muhi + t || (contact && W > 0 && o.fr < mulo - t)) violate(tag + "/friction-range", fmt("%s: friction %.9g outside the ground's range [%g, %g]", who.c_str(), o.fr, mulo, muhi));
    if (o.depth < -t * R || o.depth > R * (1 + t)) violate(tag + "/depth-range", fmt("%s: depth %.9g outside [0, %g]", who.c_str(), o.depth, R));
    if (W > 0) {
      if (o.area < -t * R * W || o.area > double(ntri) * 2 * R * W * (1 + t)) violate(tag + "/area-range", fmt("%s: area %.9g outside [0, %g]", who.c_str(), o.area, double(ntri) * 2 * R * W));
      if (o.vol < -t * R * R * W || o.vol > double(ntri) * M_PI * R * R * W * (1 + t)) violate(tag + "/volume-range", fmt("%s: volume %.9g outside [0, %g]", who.c_str(), o.vol, double(ntri) * M_PI * R * R * W));
    }
  };
  double Rm = 0;
  for (size_t i = 0; i < n; ++i) { ref::Rib r = s.rib(i); Rm = std::max(Rm, r.R); Out o = s.out(i); one(o, fmt("rib %zu", i), r.R, r.W); }
  Out g = s.out();
  one(g, "shell", Rm, 0);
  (void)wheel; if (any) c.st("finite_contact");
}

// ================================================================ world
std::string World::path(std::string const &ext) { return scratch() + fmt("/w%04ld.", file_no++ % 10000) + ext; }

lib::Mesh World::build_mesh(std::vector<Tri> const &t, Op const &op) {
  std::string how = op.s("build", "vec"); u64 style = op.u("style", 0); bool share = op.i("share", 1) != 0; Pose id = make_pose(V3(), 0, 0, 0); id.ex = V3(1, 0, 0); id.ey = V3(0, 1, 0); id.ez = V3(0, 0, 1);
  c.st("mesh_" + how);
  if (how == "rdf" || how == "reload") {
    std::string f = path("rdf"); put_file(f, rdf_text(t, style, share));
    IoPlan io; io.chunk = int(op.i("chunk", 0)); io.eintr_every = int(op.i("eintr", 0)); io.chunk_seed = op.u("cs", 0); io_arm(io);
    lib::Mesh m;
    if (how == "reload") { std::vector<Tri> other(t.begin(), t.begin() + long(std::min<size_t>(t.size(), 2))); for (auto &q : other) for (int k = 0; k < 3; ++k) q.v[k].z += 0.01; if (!other.empty()) m = lib::Mesh(other); try { m.load(f, id); } catch (...) { io_disarm(); del_file(f); throw; } }
    else { try { m = lib::Mesh(f, id); } catch (...) { io_disarm(); del_file(f); throw; } }
    IoSeen s = io_disarm(); if (s.shorts) c.st("fault_short_read", u64(s.shorts)); if (s.eintrs) c.st("fault_eintr", u64(s.eintrs));
    del_file(f); return m;
  }
  if (how == "obj") {
    std::string f = path("obj"); put_file(f, obj_text(t, style & ~16ULL, share)); lib::Mesh m;
    try { m = lib::Mesh(f, t.empty() ? 1 : t[0].mu, id); } catch (...) { del_file(f); throw; }
    del_file(f); return m;
  }
  if (how == "copy") { lib::Mesh a(t), b; if (style & 1) { std::vector<Tri> other(t.begin(), t.begin() + long(std::min<size_t>(t.size(), 1))); if (!other.empty()) b = lib::Mesh(other); } b.copy(a); return b; }
  if (op.has("ids")) { std::vector<long> ids = odd_ids(op.u("ids"), t.size()); c.st("mesh_odd_ids"); return lib::Mesh(t, &ids); }
  return lib::Mesh(t);
}
// identifiers need not be positions: any numbers, some of them repeated
std::vector<long> odd_ids(u64 seed, size_t n) { Rng q(seed); std::vector<long> ids; for (size_t i = 0; i < n; ++i) ids.push_back(seed & 1 ? long(n) - 1 - long(i) : long(q.below(1000)) - 100); return ids; }
void World::do_mesh(Op const &op) {
  std::vector<Tri> t = make_ground(op); long k = op.i("m", 0);
  if (t.empty() && op.s("build", "vec") != "vec" && op.s("build") != "copy") { c.ev("mesh skipped (empty)"); return; }
  auto it = meshes.find(k);
  try {
    if (op.i("inplace", 0) && it != meshes.end() && !t.empty()) { // another ground in the same object
      lib::Mesh &m = it->second.m; std::string how = op.s("build", "vec"); c.st("mesh_inplace");
      if (how == "rdf" || how == "reload") { Pose id = make_pose(V3(), 0, 0, 0); std::string f = path("rdf"); put_file(f, rdf_text(t, op.u("style", 0), op.i("share", 1) != 0)); try { m.load(f, id); } catch (...) { del_file(f); throw; } del_file(f); }
      else { lib::Mesh a = build_mesh(t, op); if (op.u("seed") & 2) m.clear(); m.copy(a); }
      it->second.t = t;
    } else { MeshSlot s{build_mesh(t, op), t}; meshes.erase(k); meshes.emplace(k, s); }
  }
  catch (std::exception const &e) { bad("mesh-build", std::string("building a valid mesh failed: ") + e.what()); }
  c.ev(fmt("mesh %ld: %zu triangles", k, t.size()));
}
void World::do_flat(Op const &op) {
  long k = op.i("f", 0); V3 o(op.d("ox"), op.d("oy"), op.d("oz")), n(op.d("nx"), op.d("ny"), op.d("nz", 1)); double mu = op.d("mu", 1); ref::Flat r; r.o = o; r.n = n; r.mu = mu;
  auto it = flats.find(k); std::string how = op.s("how", "new");
  if (it != flats.end() && how == "set") { it->second.f.set(mu, o, n); it->second.r = r; c.st("flat_edit"); }
  else if (it != flats.end() && how == "assign") { it->second.f.assign(lib::Flat(mu, o, n)); it->second.r = r; c.st("flat_edit"); }
  else { flats.erase(k); flats.emplace(k, FlatSlot{lib::Flat(mu, o, n), r}); }
  c.ev(fmt("flat %ld", k));
}
void World::do_shell(Op const &op) {
  long k = op.i("s", 0); Shape sh = shape_of(op); size_t n = size_t(op.i("n", 5));
  shells.erase(k);
  try { shells.emplace(k, ShellSlot{lib::Shell(n, sh.rx, sh.mx, sh.ry, sh.my, sh.ly), sh, n}); }
  catch (std::exception const &e) { bad("shell-build", std::string("building a valid shell failed: ") + e.what()); }
  c.ev(fmt("shell %ld: %zu ribs", k, n));
}
void World::do_resize(Op const &op) {
  auto it = shells.find(op.i("s", 0)); if (it == shells.end()) return; ShellSlot &s = it->second;
  long n = op.i("n", 5), fail = op.i("fail", 0);
  Res r = lib::guarded(fail, op.i("burst", 1), [&] { s.s.resize(size_t(n)); });
  if (r.failed) c.st("fault_alloc", u64(r.failed));
  c.ev(fmt("resize to %ld: %s", n, r.ok ? "ok" : "failed"));
  if (n <= 0) { if (r.ok) bad("resize-zero", "a resize to no ribs was accepted"); c.st("fault_bad_resize"); return; }
  if (!r.ok && !r.failed) bad("resize", "a valid resize failed: " + r.what);
  if (!r.ok) { try { s.s.resize(size_t(n)); } catch (std::exception const &e) { bad("resize", std::string("a resize after a failed one failed: ") + e.what()); } }
  s.n = size_t(n); s.stepped = false; c.st("resize");
}
void World::do_step(Op const &op) {
  auto it = shells.find(op.i("s", 0)); if (it == shells.end()) return; ShellSlot &s = it->second;
  std::string g = op.s("g", "m0"), method = op.s("method", "geometric"); bool onmesh = g[0] == 'm'; long gi = std::strtol(g.c_str() + 1, nullptr, 10);
  MeshSlot *ms = nullptr; FlatSlot *fs = nullptr;
  if (onmesh) { auto j = meshes.find(gi); if (j == meshes.end()) return; ms = &j->second; } else { auto j = flats.find(gi); if (j == flats.end()) return; fs = &j->second; }
  Pose ps = pose_of(op); long fail = op.i("fail", 0); bool valid = method == "geometric" || method == "sampling", geo = method == "geometric";
  bool verdict = false;
  if (long times = op.i("times", 0)) { // creeping up to the pose, unobserved
    double crawl = op.d("crawl"); Res q = lib::guarded(0, 1, [&] { for (long k = times; k > 0; --k) { Pose near = ps; near.o = near.o + (-crawl * double(k)) * ps.ex + V3(0, 0, crawl * double(k)); onmesh ? s.s.setup(ms->m, near, method) : s.s.setup(fs->f, near, method); } });
    c.st("crawls"); c.simtime += 0.001 * double(times); if (!q.ok && valid) bad("step-error", "a valid step failed: " + q.what);
  }
  Res r = lib::guarded(fail, op.i("burst", 1), [&] { verdict = onmesh ? s.s.setup(ms->m, ps, method) : s.s.setup(fs->f, ps, method); });
  ++steps; c.simtime += 0.001; c.st(std::string("step_") + (onmesh ? "mesh_" : "flat_") + (valid ? method : "badmethod"));
  if (r.failed) c.st("fault_alloc", u64(r.failed));
  c.ev(fmt("step %s on %s: %s", method.c_str(), g.c_str(), r.ok ? (verdict ? "contact" : "no contact") : "failed"));
  if (!r.ok) {
    if (!r.failed && valid) bad("step-error", "a valid step failed: " + r.what);
    c.st(r.failed ? "step_failed_oom" : "step_failed_method"); s.stepped = false; return;
  }
  if (!valid) { // accepted only when nothing had to be evaluated
    s.stepped = false; if (checks & CK_TWIN) goto twin; return;
  }
  s.stepped = true; s.last = verdict;
  {
    size_t n = s.s.size(); if (n != s.n) bad("size", fmt("shell has %zu ribs, expected %zu", n, s.n));
    unsigned sel = onmesh ? (geo ? CK_GEO : CK_SAMP) : (geo ? CK_FLAT : CK_SAMP);
    if (checks & sel) {
      std::vector<ref::Rib> ribs = ref::ribs(s.sh, n); bool sure = false, unsure = false; Box rep = s.s.bbox();
      if (onmesh) { // work bound: the reference looks at the triangles near the shell only
        Box near = ref::grow(ribs_box(ribs, ps), 0.05); (void)near;
      }
      for (size_t i = 0; i < n; ++i) {
        Out got = s.s.out(i); Want w = onmesh ? want_mesh(ms->t, ps, ribs[i], ribs, geo, rep) : want_flat(fs->r, ps, ribs[i], geo);
        if (w.skip) { ++ambiguous; unsure = true; continue; }
        ++compared; ++c.oracle_checks; std::string what, d = compare(got, w.o, ribs[i], ps, what);
        if (!d.empty()) bad(w.o.contact ? what : "no-contact-" + what, fmt("step %llu (%s on %s) rib %zu of %zu: ", (unsigned long long)steps, method.c_str(), g.c_str(), i, n) + d);
        if (w.o.contact) { sure = true; ++contacts; }
      }
      if (sure || !unsure) { ++c.oracle_checks; if (verdict != sure) bad("verdict", fmt("step %llu (%s on %s): setup returned %s but %s", (unsigned long long)steps, method.c_str(), g.c_str(), verdict ? "true" : "false", sure ? "some rib is in contact" : "no rib is in contact")); }
      if (sure) { c.st("contact_steps"); c.nontrivial = true; }
    }
    if (checks & CK_AGG) { check_aggregates(c, s.s, ps, tag, steps); c.nontrivial = c.nontrivial || verdict; }
    if (checks & CK_FIN) {
      double lo = 1e300, hi = 0; size_t nt = 1;
      if (onmesh) { nt = 0; Box rb = ref::grow(ribs_box(ref::ribs(s.sh, n), ps), 1e-3); for (auto &q : ms->t) if (ref::meets(ref::box(q), rb)) { ++nt; lo = std::min(lo, q.mu); hi = std::max(hi, q.mu); } if (!nt) lo = 0; } else { lo = hi = fs->r.mu; }
      if (!geo) lo = 0, hi = 1e300; // checked against the reference in C06
      if (!geo && onmesh) { hi = 0; for (auto &q : ms->t) hi = std::max(hi, q.mu); }
      if (!geo && !onmesh) hi = fs->r.mu;
      check_finite(c, s.s, ps, lo, hi, std::max<size_t>(nt, 1), tag, !onmesh); c.nontrivial = c.nontrivial || verdict;
    }
  }
twin:
  if (checks & CK_TWIN) {
    std::vector<double> a = snapshot(s.s, verdict); bool v2 = false; lib::Shell fresh(s.n, s.sh.rx, s.sh.mx, s.sh.ry, s.sh.my, s.sh.ly);
    bool anew = steps % 3 == 1 && onmesh && ms->t.size() < 600; // over a ground made anew, too
    Res r2 = lib::guarded(0, 0, [&] {
      if (anew) { lib::Mesh m(ms->t); v2 = fresh.setup(m, ps, method); }
      else v2 = onmesh ? fresh.setup(ms->m, ps, method) : fresh.setup(fs->f, ps, method); });
    if (anew) c.st("twin_new_ground");
    if (!r2.ok) bad("twin-error", "the step succeeded, but fails on a fresh shell: " + r2.what);
    if (!valid) { c.st("accepted_badmethod"); }
    std::vector<double> b = snapshot(fresh, v2); size_t w = 0; ++c.oracle_checks;
    if (!same_bits(a, b, &w)) bad("twin", fmt("step %llu: the result differs from a fresh shell's%s at %s: %.17g, fresh %.17g", (unsigned long long)steps, anew ? " over a new ground" : "", where_in_snapshot(w, s.n).c_str(), w < a.size() ? a[w] : -1, w < b.size() ? b[w] : -1));
    c.st("twin_compared"); if (verdict && steps > 1) c.nontrivial = true;
    log_values(c, a);
  } else log_values(c, snapshot(s.s, verdict, false));
}
bool World::apply(Op const &op) {
  if (op.n == "mesh") do_mesh(op);
  else if (op.n == "flat") do_flat(op);
  else if (op.n == "shell") do_shell(op);
  else if (op.n == "resize") do_resize(op);
  else if (op.n == "step") do_step(op);
  else if (op.n == "move") {
    auto it = shells.find(op.i("s", 0)); if (it == shells.end()) return true;
    if (op.i("rot", 0)) it->second.s.rotate(op.d("a"), ref::unit(V3(op.d("x"), op.d("y"), op.d("z", 1)))); else it->second.s.translate(V3(op.d("x"), op.d("y"), op.d("z")));
    it->second.stepped = false; c.st("hand_move"); c.ev("move");
  } else return false;
  return true;
}
void World::finish() { c.st("steps", steps); c.st("ribs_compared", compared); c.st("ribs_in_contact", contacts); c.st("ribs_skipped_ambiguous", ambiguous); }
void World::check_mesh(lib::Mesh const &m, std::vector<Tri> const &t, std::string const &cls) {
  std::vector<lib::TriView> v = m.tris();
  if (v.size() != t.size() || m.size() != t.size()) bad(cls, fmt("mesh has %zu triangles, expected %zu", v.size(), t.size()));
  for (size_t i = 0; i < t.size(); ++i) for (int k = 0; k < 3; ++k) if (ref::maxabs(v[i].v[k] - t[i].v[k]) > 0 || v[i].mu != t[i].mu) bad(cls, fmt("triangle %zu differs", i));
}

// ================================================================ generators
Op gen_shell(Rng &r, long slot, bool extreme) {
  Op o("shell"); bool odd = r.chance(0.06); double R = odd ? r.logu(0.05, 2.5) : r.uni(0.2, 0.5); double ry, ly; // now and then a toy or a haul truck
  int k = int(r.below(extreme ? 4 : 3));
  if (k == 3) { ry = R * r.uni(1.0, 3.0); ly = ry * r.uni(0.5, 0.98); } else { ry = r.uni(0.08, 0.25); ly = ry * r.uni(0.5, 0.99); if (odd && r.chance(0.7)) { ry *= R / 0.35; ly *= R / 0.35; } }
  double mx = r.chance(0.5) ? double(r.range(2, 12)) : r.uni(2, 12), my = r.chance(0.5) ? double(r.range(2, 12)) : r.uni(2, 12);
  long n = r.chance(0.15) ? 1 : r.chance(0.8) ? r.range(2, 10) : r.chance(0.97) ? r.range(11, 40) : r.range(41, 300);
  o.set("s", slot).set("n", n).set("rx", R).set("mx", mx).set("ry", ry).set("my", my).set("ly", ly); return o;
}
Op sibling(Rng &r, Op const &b, long slot) {
  Op o = b; if (o.has("s")) o.set("s", slot); bool any = false;
  while (!any) for (char const *k : {"rx", "mx", "ry", "my", "ly"}) if (r.chance(0.35)) { any = true; double v = o.d(k); o.set(k, k[0] == 'm' ? std::max(2.0, v * r.uni(0.5, 1.6)) : k[0] == 'l' ? v * r.uni(0.7, 0.999) : k[1] == 'y' ? v * r.uni(1.001, 1.6) : v * r.uni(0.8, 1.25)); }
  return o;
}
Op gen_flat(Rng &r, long slot, V3 a) {
  Op o("flat"); double tilt = r.chance(0.2) ? 0 : r.chance(0.12) ? r.logu(1e-7, 0.05) : r.chance(0.8) ? r.uni(0, 0.4) : r.uni(0.4, 1.5), az = r.uni(0, 6.3), s = r.chance(0.6) ? 1 : r.uni(0.3, 4);
  V3 n(std::sin(tilt) * std::cos(az), std::sin(tilt) * std::sin(az), std::cos(tilt)); n = s * n;
  o.set("f", slot).set("ox", a.x + r.uni(-1, 1)).set("oy", a.y + r.uni(-1, 1)).set("oz", a.z).set("nx", n.x).set("ny", n.y).set("nz", n.z).set("mu", r.chance(0.4) ? r.uni(0, 1.5) : std::round(r.uni(0, 1.5) * 64) / 64); if (r.chance(0.1)) o.set("ox", a.x + r.uni(-300, 300)).set("oy", a.y + r.uni(-300, 300));
  if (r.chance(0.06)) o.set("mu", 0.0);
  // let the plane pass near the given point
  V3 u = ref::unit(n); V3 p(o.d("ox"), o.d("oy"), o.d("oz")); double off = ref::dot(a - p, u); p = p + off * u; o.set("ox", p.x).set("oy", p.y).set("oz", p.z);
  return o;
}
Op gen_mesh(Rng &r, GenOpt const &g, long slot, double R, V3 a) {
  Op o("mesh"); o.set("m", slot).set("seed", r.next() >> 1);
  double k = r.uni();
  if (k < 0.22) o.set("kind", "soup").set("n", r.chance(0.15) ? r.range(1, 4) : r.range(5, g.thorough ? 150 : 60)).set("d", R * r.uni(0.6, 2.0));
  else {
    double ext = R * r.uni(1.5, 6); long nx = r.range(1, g.thorough ? 24 : 14), ny = r.chance(0.3) ? r.range(1, 3) : r.range(1, g.thorough ? 24 : 12);
    if (r.chance(0.015)) { nx = r.range(20, 60); ny = r.range(16, 50); if (r.chance(0.5)) nx = r.range(110, 200), ny = r.range(8, 26), ext = R * r.uni(1.6, 2.4); } // now and then a mesh of thousands, or a fine strip
    o.set("kind", "hf").set("nx", nx).set("ny", ny).set("d", ext / double(std::max(nx, ny)) * r.uni(0.7, 1.3)).set("amp", r.chance(0.3) ? 0.0 : r.logu(0.003, 0.12));
    if (r.chance(0.4)) o.set("rough", r.logu(0.001, 0.08));
    if (r.chance(0.3)) o.set("sx", r.uni(-0.5, 0.5)).set("sy", r.uni(-0.5, 0.5));
    if (r.chance(0.25)) o.set("step", r.uni(-0.12, 0.12)).set("stepx", r.uni(-0.2, 0.2));
    if (r.chance(0.25)) o.set("hole", r.uni(0.05, 0.6));
  }
  if (r.chance(0.2)) o.set("wall", r.range(1, 4));
  if (r.chance(0.12)) o.set("roof", r.range(1, 3));
  if (r.chance(0.15)) o.set("dup", r.range(1, 6));
  if (g.degenerate && r.chance(0.25)) o.set("deg", r.range(1, 5));
  o.set("cx", a.x).set("cy", a.y).set("cz", a.z).set("mu", std::round(r.uni(0.1, 1.2) * 64) / 64); if (r.chance(0.4)) o.set("muq", 1L).set("mu", r.uni(0.1, 1.2)); if (g.const_mu || r.chance(0.1)) o.set("cmu", 1L);
  if (r.chance(0.06)) { if (o.i("cmu")) o.set("mu", 0.0); else o.set("muz", r.chance(0.5) ? 1.0 : 0.3); } // no friction at all
  if (r.chance(0.3)) o.set("perm", r.chance(0.3) ? u64(1) : (r.next() >> 2)); if (r.chance(0.3)) o.set("wind", r.next() >> 2);
  double b = r.uni();
  if (b < 0.5) { if (r.chance(0.3)) o.set("ids", r.next() >> 2); } else if (b < 0.68) o.set("build", "rdf").set("style", r.below(256)); else if (b < 0.78) { o.set("build", "reload").set("style", r.below(256)); } else if (b < 0.9) o.set("build", "copy").set("style", r.below(2)); else if (o.i("cmu")) o.set("build", "obj").set("style", r.below(256));
  if (o.has("build") && o.s("build") != "copy" && r.chance(0.3)) o.set("chunk", r.range(1, 40)).set("eintr", r.chance(0.3) ? r.range(2, 5) : 0L);
  return o;
}
void gen_drive(Rng &r, GenOpt const &g, Trace &t) {
  static double const far[] = {0, 0, 0, 0, 0, 5, 5, 60, 60, 1000, 1000, 20000}; double off = far[r.below(12)]; V3 a(off * (r.chance(0.5) ? 1 : -1), off * (r.chance(0.5) ? 1 : -1) * r.uni(0, 1), r.chance(0.7) ? 0 : r.chance(0.8) ? r.uni(-3, 3) : r.uni(-900, 4000));
  Op sh = gen_shell(r, 0, r.chance(0.5)); double R = sh.d("rx"); Shape shp = shape_of(sh); long nsh = 1;
  std::vector<Op> shells{sh}; t.push_back(sh);
  if (r.chance(0.22)) { Op s2 = r.chance(0.5) ? sibling(r, sh, 1) : gen_shell(r, 1, false); t.push_back(s2); shells.push_back(s2); nsh = 2; }
  std::map<long, std::vector<Tri>> gm; std::map<long, ref::Flat> gf; Op lastm, lastf;
  // a ground may be another one but for some detail
  std::map<long, Op> gop; auto detail = [&](Op b, Op const &o) { // b but for one detail
    for (char const *x : {"build", "style", "chunk", "eintr"}) if (o.has(x)) b.set(x, o.s(x)); else if (b.has(x)) b.set(x, x[0] == 'b' ? "vec" : "0"); if (g.const_mu || o.s("build") == "obj") b.set("cmu", 1L);
    int m = int(r.below(6)); if (m == 0) b.set("mu", o.s("mu")); else if (m == 1) b.set("seed", o.s("seed")); else if (m == 2) b.set("amp", b.d("amp") * r.uni(0.3, 1.5)); else if (m == 3) b.set("cz", b.d("cz") + r.uni(-0.1, 0.1)); else if (m == 4) b.set("perm", r.next() >> 2); else b.set("sx", b.d("sx") + r.uni(-0.2, 0.2)); return b; };
  auto near_mesh = [&](long k) { Op o = gen_mesh(r, g, k, R, a); if (!lastm.n.empty() && r.chance(0.2)) { o = detail(lastm, o); o.set("m", k); } lastm = o; gop[k] = o; return o; };
  auto near_flat = [&](long k) { Op o = gen_flat(r, k, a); if (!lastf.n.empty() && r.chance(0.3)) { Op b = lastf; int m = int(r.below(3)); if (m == 0) b.set("mu", o.s("mu")); else if (m == 1) b.set("nx", o.s("nx")).set("ny", o.s("ny")).set("nz", o.s("nz")); else b.set("oz", b.d("oz") + r.uni(-0.1, 0.1)); b.set("f", k); o = b; } lastf = o; return o; };
  auto new_mesh = [&](long k) { Op o = near_mesh(k); if (gm.count(k) && r.chance(0.4)) o.set("inplace", 1L); t.push_back(o); gm[k] = make_ground(o); };
  auto new_flat = [&](long k) { Op o = near_flat(k); if (gf.count(k)) o.set("how", r.chance(0.4) ? "set" : r.chance(0.5) ? "assign" : "new"); t.push_back(o); ref::Flat f; f.o = V3(o.d("ox"), o.d("oy"), o.d("oz")); f.n = V3(o.d("nx"), o.d("ny"), o.d("nz")); f.mu = o.d("mu"); gf[k] = f; };
  if (g.mesh) { new_mesh(0); if (r.chance(0.3)) new_mesh(1); }
  if (g.flat) new_flat(0);
  double yaw = r.uni(-3.2, 3.2), cam = r.chance(0.3) ? 0 : r.chance(0.75) ? r.uni(-0.3, 0.3) : r.uni(-1.2, 1.2), pit = r.uni(-3.2, 3.2), dir = r.uni(-3.2, 3.2), v = R * r.logu(0.01, 0.5), load = r.uni(0.75, 1.02);
  V3 pos(a.x + r.uni(-1, 1) * R, a.y + r.uni(-1, 1) * R, 0);
  if (g.mesh && lastm.i("nx") >= 110) { yaw = r.uni(-0.04, 0.04) + (r.chance(0.5) ? M_PI : 0); dir = 0; pos = V3(a.x + r.uni(-0.1, 0.1), a.y + r.uni(-0.05, 0.05), 0); load = r.uni(0.6, 0.9); cam = r.uni(-0.05, 0.05); } // along the strip
  int n = int(r.chance(0.02) ? r.range(3 * g.max_ops, 8 * g.max_ops) : r.range(2, g.max_ops)); std::map<long, Op> last; double p_keep = r.chance(0.4) ? 0.5 : 0.08;
  for (int i = 0; i < n; ++i) {
    if (r.chance(g.p_resize)) { Op o("resize"); o.set("s", long(r.below(u64(nsh)))).set("n", r.chance(0.06) ? 0L : r.chance(0.85) ? r.range(1, 12) : r.range(13, 60)); if (r.chance(0.3)) o.set("fail", r.range(1, 12)); t.push_back(o); }
    if (r.chance(g.p_newground)) { if (g.mesh && (!g.flat || r.chance(0.6))) new_mesh(long(r.below(gm.size() + 1) % 2)); else if (g.flat) new_flat(0); }
    if (r.chance(g.p_move)) { Op o("move"); o.set("s", long(r.below(u64(nsh)))).set("x", r.uni(-1, 1)).set("y", r.uni(-1, 1)).set("z", r.uni(-1, 1)); if (r.chance(0.5)) o.set("rot", 1L).set("a", r.uni(-3, 3)); t.push_back(o); }
    Op o("step"); bool flat = g.flat && (!g.mesh || r.chance(g.p_flat)); long k = flat ? 0 : long(r.below(gm.size()));
    // advance
    if (r.chance(0.05)) { pos = V3(a.x + r.uni(-2, 2) * R, a.y + r.uni(-2, 2) * R, 0); yaw = r.uni(-3.2, 3.2); cam = r.chance(0.7) ? r.uni(-0.3, 0.3) : r.uni(-1.5, 1.5); load = r.uni(0.5, 1.05); }
    pos.x += v * std::cos(dir); pos.y += v * std::sin(dir); pit += v / R; dir += r.uni(-0.1, 0.1); cam += r.uni(-0.02, 0.02); yaw += r.uni(-0.05, 0.05); load += r.uni(-0.03, 0.03); if (load < 0.3 || load > 1.1) load = r.uni(0.6, 1.02);
    if (std::hypot(pos.x - a.x, pos.y - a.y) > 2.5 * R) dir = std::atan2(a.y - pos.y, a.x - pos.x) + r.uni(-0.5, 0.5);
    double h = a.z; if (flat) { ref::Hit q = ref::sample(gf[k], pos.x, pos.y); if (q.ok && std::fabs(q.z - a.z) < 50) h = q.z; } else { ref::Hit q = ref::sample(gm[k], pos.x, pos.y); if (q.ok && std::fabs(q.z - a.z) < 2 * R) h = q.z; }
    V3 p(pos.x, pos.y, h + R * load * (std::fabs(cam) < 0.5 ? 1 : std::fabs(std::cos(cam)) + 0.3 * r.uni()));
    double y = yaw, c = cam, pt = pit;
    if (r.chance(g.p_align)) { static double const q4[] = {0, M_PI / 2, M_PI, -M_PI / 2, M_PI / 4}; y = q4[r.below(5)]; c = r.chance(0.8) ? 0 : q4[r.below(5)]; pt = r.chance(0.7) ? 0 : pt; 
      if (!flat && !gm[k].empty()) { Tri const &q = gm[k][r.below(gm[k].size())]; int m = int(r.below(6)); V3 w = m == 0 ? q.v[0] : m == 1 ? q.v[1] : m == 2 ? 0.5 * (q.v[0] + q.v[1]) : m == 3 ? (1.0 / 3) * (q.v[0] + q.v[1] + q.v[2]) : q.v[2];
        double Rr = R; long nr = sh.i("n"); std::vector<ref::Rib> rb = ref::ribs(shp, size_t(nr)); ref::Rib b = rb[r.below(rb.size())]; Rr = b.R;
        Pose ps = make_pose(V3(), y, c, pt); V3 off2 = b.y * ps.ey; // put that ground point exactly in the plane of a rib
        double zz = r.chance(0.25) ? w.z : r.chance(0.4) ? w.z + Rr : r.chance(0.2) ? w.z - Rr : w.z + Rr * load; p = V3(w.x - off2.x, w.y - off2.y, zz - off2.z);
        if (r.chance(0.3)) p = p + (r.chance(0.5) ? Rr : -Rr) * ps.ex; if (r.chance(0.3)) p = p + r.uni(-1, 1) * Rr * ps.ex; } 
      else if (flat && r.chance(0.5)) { p.z = gf[k].o.z + (r.chance(0.3) ? 0 : r.chance(0.5) ? R : R * load); } }
    put_pose(o, p, y, c, pt); o.set("s", long(r.below(u64(nsh)))).set("g", std::string(flat ? "f" : "m") + std::to_string(k)).set("method", r.chance(g.p_sampling) ? "sampling" : "geometric");
    // a step may keep parts of the frame of the step before, or all of it: steering on the spot, lifting, standing still while the ground changes
    if (r.chance(p_keep) && last.count(o.i("s"))) {
      Op const &b = last[o.i("s")]; int m = int(r.below(6)); static char const *keys[] = {"x", "y", "z", "yaw", "cam", "pit"};
      for (int i2 = 0; i2 < 6; ++i2) if (m == 0 ? i2 < 3 : m == 1 ? i2 >= 3 : m == 2 ? true : m == 3 ? i2 != 2 : r.chance(0.5)) { if (b.has(keys[i2])) o.set(keys[i2], b.s(keys[i2])); }
      if (m == 0 && r.chance(0.5)) o.set("yaw", b.d("yaw") + r.uni(-1.6, 1.6)).set("cam", b.d("cam") + r.uni(-0.3, 0.3));
    }
    last[o.i("s")] = o;
    if (r.chance(p_keep * 0.3)) { // the very same step again, around a change of one of its objects
      t.push_back(o); double q = r.uni();
      if (q < 0.3) { Op z("resize"); z.set("s", o.s("s")).set("n", r.range(1, 12)); t.push_back(z); }
      else if (q < 0.6 && !flat) { Op m; if (r.chance(0.6) && gop.count(k)) m = detail(gop[k], gen_mesh(r, g, k, R, a)); else m = gen_mesh(r, g, k, R, a); m.set("m", k).set("inplace", 1L); gop[k] = m; t.push_back(m); gm[k] = make_ground(m); }
      else if (q < 0.8 && flat) { Op m = gen_flat(r, k, a); m.set("how", "set"); t.push_back(m); ref::Flat f; f.o = V3(m.d("ox"), m.d("oy"), m.d("oz")); f.n = V3(m.d("nx"), m.d("ny"), m.d("nz")); f.mu = m.d("mu"); gf[k] = f; }
      else { Op m("move"); m.set("s", o.s("s")).set("x", r.uni(-1, 1)).set("y", r.uni(-1, 1)).set("z", r.uni(-1, 1)); t.push_back(m); }
    }
    if (r.chance(g.p_bad)) { Op b = o; b.set("method", r.chance(0.5) ? "magic" : ""); t.push_back(b); }
    if (r.chance(g.p_fail)) { Op b = o; b.set("fail", r.chance(0.6) ? r.range(1, 12) : r.range(1, 60)); t.push_back(b); }
    if (r.chance(g.p_crawl)) o.set("times", r.chance(0.5) ? r.range(2, 40) : r.range(200, 600)).set("crawl", r.chance(0.2) ? 0 : r.logu(1e-9, 1e-5));
    else if (flat && r.chance(g.p_crawl * 0.005)) o.set("times", r.range(65000, 66500)).set("crawl", r.logu(1e-11, 1e-8));
    t.push_back(o);
  }
}
} // namespace sim
