// Small executable reference models, written independently of the library (no Eigen, no library code).
#ifndef SIM_REF_HPP
#define SIM_REF_HPP
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

namespace ref {

struct V3 {
  double x = 0, y = 0, z = 0;
  V3() {}
  V3(double a, double b, double c) : x(a), y(b), z(c) {}
};
inline V3 operator+(V3 a, V3 b) { return V3(a.x + b.x, a.y + b.y, a.z + b.z); }
inline V3 operator-(V3 a, V3 b) { return V3(a.x - b.x, a.y - b.y, a.z - b.z); }
inline V3 operator*(double s, V3 a) { return V3(s * a.x, s * a.y, s * a.z); }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return V3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
inline double norm(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 unit(V3 a) { double n = norm(a); return n > 0 ? (1 / n) * a : a; }
inline double maxabs(V3 a) { double m = std::fabs(a.x); for (double v : {std::fabs(a.y), std::fabs(a.z)}) if (!(v <= m)) m = v; return m == m && a.x == a.x && a.y == a.y && a.z == a.z ? m : HUGE_VAL; } // not-a-number is as far off as can be
inline bool finite(V3 a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }

struct Tri { V3 v[3]; double mu = 1; };
struct Box { V3 lo, hi; };
inline Box box(Tri const &t) {
  Box b; 
  b.lo = V3(std::min({t.v[0].x, t.v[1].x, t.v[2].x}), std::min({t.v[0].y, t.v[1].y, t.v[2].y}), std::min({t.v[0].z, t.v[1].z, t.v[2].z}));
  b.hi = V3(std::max({t.v[0].x, t.v[1].x, t.v[2].x}), std::max({t.v[0].y, t.v[1].y, t.v[2].y}), std::max({t.v[0].z, t.v[1].z, t.v[2].z}));
  return b;
}
inline bool meets(Box const &a, Box const &b) {
  return a.lo.x <= b.hi.x && a.hi.x >= b.lo.x && a.lo.y <= b.hi.y && a.hi.y >= b.lo.y && a.lo.z <= b.hi.z && a.hi.z >= b.lo.z;
}
inline Box grow(Box b, double e) { b.lo = b.lo - V3(e, e, e); b.hi = b.hi + V3(e, e, e); return b; }
inline V3 up_normal(Tri const &t) { V3 n = unit(cross(t.v[1] - t.v[0], t.v[2] - t.v[0])); return n.z < 0 ? -1.0 * n : n; }

struct Pose { V3 o, ex, ey, ez; }; // origin and axes of the wheel frame
inline V3 at(Pose const &p, V3 a) { return p.o + a.x * p.ex + a.y * p.ey + a.z * p.ez; }

struct Shape { double rx, mx, ry, my, ly; };
inline double radius(Shape const &s, double y) { return s.rx * std::pow(1 - std::pow(std::fabs(y) / s.ry, s.my), 1 / s.mx); }
// slope of the profile, from the implicit curve (r/rx)^mx + (|y|/ry)^my = 1
inline double angle(Shape const &s, double y) {
  if (y == 0) return 0;
  double a = std::fabs(y) / s.ry, r = std::pow(1 - std::pow(a, s.my), 1 / s.mx); // r/rx
  double drdy = -(s.my * std::pow(a, s.my - 1) / s.ry) / (s.mx * std::pow(r, s.mx - 1)) * s.rx;
  return std::atan(y > 0 ? drdy : -drdy);
}
struct Rib { double R, y, W; };
inline std::vector<Rib> ribs(Shape const &s, size_t n) {
  std::vector<Rib> r;
  for (size_t i = 0; i < n; ++i) { double w = 2 * s.ly / double(n), y = -s.ly + (double(i) + 0.5) * w; r.push_back(Rib{radius(s, y), y, w}); }
  return r;
}

struct Out {
  bool contact = false;
  V3 p, n;
  double fr = 0, depth = 0, area = 0, vol = 0;
  bool amb = false;     // the inputs sit so close to a decision boundary that rounding may decide
  double ptol = 1e-6, ntol = 1e-6, atol = 0;
};

inline Out no_contact(Pose const &ps, Rib const &r) {
  Out o; o.p = at(ps, V3(0, r.y, -r.R)); o.n = ps.ez; return o;
}

double const EPS = 1.4901161193847656e-08; // the library's stated precision

// ---- geometric model on a mesh: brute force over all triangles
inline Out geometric(std::vector<Tri> const &tris, Pose const &ps, Rib const &rb) {
  Out o; V3 C = at(ps, V3(0, rb.y, 0)); V3 n = ps.ey; double R = rb.R;
  double A = 0, V = 0, F = 0; V3 P, N; bool any = false;
  for (Tri const &t : tris) {
    double s[3]; for (int k = 0; k < 3; ++k) s[k] = dot(t.v[k] - C, n);
    double far = 1e-5;
    double mn = std::min({s[0], s[1], s[2]}), mx = std::max({s[0], s[1], s[2]});
    if (mn > far || mx < -far) continue;
    // cheap reject: the triangle's box is out of reach of the disk
    Box b = box(t); Box d; d.lo = C - V3(R, R, R); d.hi = C + V3(R, R, R);
    if (!meets(grow(b, 1e-4), d)) continue;
    V3 tn = cross(t.v[1] - t.v[0], t.v[2] - t.v[0]); double area2 = norm(tn);
    if (area2 < 1e-7) { if (area2 > 0 || true) o.amb = true; continue; }
    tn = (1 / area2) * tn;
    V3 line = cross(tn, n); double sn2 = dot(line, line);
    if (sn2 < 1e-6) { o.amb = true; continue; }
    bool near_plane = false; for (int k = 0; k < 3; ++k) near_plane = near_plane || std::fabs(s[k]) < far;
    if (near_plane) { o.amb = true; continue; }
    double coord = std::max({maxabs(t.v[0]), maxabs(t.v[1]), maxabs(t.v[2]), maxabs(C), 1.0});
    if (4e-15 * coord / sn2 > 1e-8) { o.amb = true; continue; }
    V3 q[2]; int nq = 0;
    for (int k = 0; k < 3 && nq < 2; ++k) { int j = (k + 1) % 3; if ((s[k] < 0) != (s[j] < 0)) { double f = s[k] / (s[k] - s[j]); q[nq++] = t.v[k] + f * (t.v[j] - t.v[k]); } }
    if (nq < 2) continue;
    // into disk coordinates (u along the wheel x axis, w along the wheel z axis)
    double u0 = dot(q[0] - C, ps.ex), w0 = dot(q[0] - C, ps.ez), u1 = dot(q[1] - C, ps.ex), w1 = dot(q[1] - C, ps.ez);
    double du = u1 - u0, dw = w1 - w0, L2 = du * du + dw * dw, L = std::sqrt(L2);
    if (L < 1e-7) { if (std::hypot(u0, w0) < R + 1e-6) o.amb = true; continue; }
    double h = (u0 * dw - w0 * du) / L; // signed distance of the line from the centre
    double disc = L2 * (R * R - h * h);
    if (std::fabs(disc) < 3 * EPS) { // near-tangent in the library's measure
      double tm = -(u0 * du + w0 * dw) / L2; double half = std::sqrt(std::max(0.0, R * R - h * h) + 3 * EPS / L2) / L;
      if (tm + half > -1e-6 && tm - half < 1 + 1e-6) o.amb = true;
      continue;
    }
    if (disc < 0) continue;
    double tm = -(u0 * du + w0 * dw) / L2, half = std::sqrt(R * R - h * h) / L;
    double a = std::max(0.0, tm - half), bq = std::min(1.0, tm + half);
    if (bq - a < -1e-9) continue;
    if ((bq - a) * L < 1e-7) { o.atol += 1.1e-7 * rb.W; continue; } // touches the rim only: contributes less than the tolerance
    double au = u0 + a * du, aw = w0 + a * dw, bu = u0 + bq * du, bw = w0 + bq * dw;
    double ra = std::min(R, std::hypot(au, aw)), rbb = std::min(R, std::hypot(bu, bw));
    if (std::fabs(h) < 1e-6 && tm > -0.01 && tm < 1.01) { o.amb = true; continue; } // through the hub: direction undefined
    double delta = std::atan2(std::fabs(au * bw - aw * bu), au * bu + aw * bw); // angle subtended, in [0, pi]
    if (delta > M_PI - 1e-5) { o.amb = true; continue; }
    double ta = std::atan2(aw, au);
    double turn = (au * bw - aw * bu) >= 0 ? 1 : -1;
    double tc = ta + turn * delta / 2;
    double rc = std::min(R, std::max(0.0, 2 * ra * rbb / std::max(EPS, ra + rbb) * std::cos(delta / 2)));
    double sec = R * R * delta / 2 - ra * rbb * std::sin(delta) / 2;
    double cu = std::cos(tc), cw = std::sin(tc);
    V3 dir = cu * ps.ex + cw * ps.ez;
    V3 tnu = tn.z < 0 ? -1.0 * tn : tn;
    if (std::fabs(tn.z) < 1e-15 + 1e-14 * coord * std::max(norm(t.v[1] - t.v[0]), norm(t.v[2] - t.v[0])) / area2 && std::fabs(dot(tn, n)) > 1e-12) { o.amb = true; } // vertical wall: which side is "up" is rounding
    V3 nn = unit(-1.0 * dir + dot(tnu + dir, n) * n);
    double v = sec * rb.W; 
    A += (bq - a) * L * rb.W; V += v; F += v * t.mu; P = P + v * (C + rc * dir); N = N + v * nn; any = true;
  }
  if (any && (A > EPS || V > EPS)) {
    if (A < 10 * EPS && V < 10 * EPS) o.amb = true;
    if (!(V > 1e-13)) { o.amb = true; V = std::max(V, 1e-300); }
    o.contact = true; o.area = A; o.vol = V; o.p = (1 / V) * P; o.n = unit((1 / V) * N); o.fr = F / V; o.depth = R - norm(o.p - C);
    if (norm((1 / V) * N) < 1e-3) o.amb = true;
  } else {
    if (any) o.amb = true;
    bool amb = o.amb; double at0 = o.atol; o = no_contact(ps, rb); o.amb = amb; o.atol = at0;
  }
  return o;
}

// ---- geometric model on a plane
struct Flat { V3 o, n; double mu; };
inline Out geometric(Flat const &f, Pose const &ps, Rib const &rb) {
  Out o; V3 C = at(ps, V3(0, rb.y, 0)); V3 fn = unit(f.n); double R = rb.R;
  V3 g = fn - dot(fn, ps.ey) * ps.ey; double sn = norm(g), sn2 = sn * sn; // component of the plane normal in the disk plane
  if (sn2 < 1e-6) { o = no_contact(ps, rb); o.amb = true; return o; }
  double dist = dot(f.o - C, fn) / sn; // signed distance, in the disk plane, from the centre to the cut line, along g
  double disc = sn2 * (R * R - dist * dist);
  double far = std::max(maxabs(C), maxabs(f.o)); // the cut line is found from the axes' origin: its discriminant is a difference of squares of that size
  if (std::fabs(disc) < 3 * EPS + 1e-15 * far * far) { o = no_contact(ps, rb); o.amb = true; return o; }
  if (disc < 0) return no_contact(ps, rb);
  o.contact = true; o.p = C + (dist / sn) * g; o.n = fn; o.fr = f.mu; o.depth = R - std::fabs(dist);
  double c = std::sqrt(std::max(0.0, o.depth * (2 * R - o.depth)));
  o.area = 2 * c * rb.W; o.vol = (R * R * std::acos(std::min(1.0, (R - o.depth) / R)) - (R - o.depth) * c) * rb.W;
  return o;
}

// ---- sampling model
struct Hit { bool ok = false, amb = false; double z = 0, mu = 0; };
inline Hit sample(std::vector<Tri> const &tris, double x, double y) { // highest point of the triangles on a vertical line
  Hit h; double maybe = -1e300; std::vector<std::pair<double, double>> tops; std::vector<Tri const *> brim; bool hard = false; double bz = 0, bmu = 0;
  for (Tri const &t : tris) {
    double x0 = t.v[0].x, y0 = t.v[0].y, ax = t.v[1].x - x0, ay = t.v[1].y - y0, bx = t.v[2].x - x0, by = t.v[2].y - y0;
    double det = ax * by - ay * bx;
    if (std::fabs(det) < 1.5 * EPS) { // vertical or tiny: the library ignores it
      if (std::fabs(det) > 0.5 * EPS) { // borderline
        Box b = box(t); if (x > b.lo.x - 1e-6 && x < b.hi.x + 1e-6 && y > b.lo.y - 1e-6 && y < b.hi.y + 1e-6) { maybe = std::max(maybe, b.hi.z); hard = true; }
      }
      continue;
    }
    double px = x - x0, py = y - y0, u = (px * by - py * bx) / det, v = (ax * py - ay * px) / det;
    double tol = 1e-6 + 1e-13 / std::fabs(det) * (1 + std::fabs(x) + std::fabs(y));
    double m = std::min({u, v, 1 - u - v});
    double z = t.v[0].z + u * (t.v[1].z - t.v[0].z) + v * (t.v[2].z - t.v[0].z);
    if (m < -tol) continue;
    if (m < tol) {
      maybe = std::max(maybe, z); if (m < -1e-12 - (tol - 1e-6)) { hard = true; continue; }
      if (brim.empty()) { bz = z; bmu = t.mu; } else if (std::fabs(z - bz) > 1e-9 || t.mu != bmu) hard = true;
      if ((1 + std::fabs(x) + std::fabs(y)) / std::sqrt(std::fabs(det)) > 1e3) hard = true;
      brim.push_back(&t); continue;
    }
    tops.emplace_back(z, t.mu);
  }
  if (!brim.empty() && !hard) { // on an edge or a vertex that the triangles around it close: it lies on the ground all the same
    bool closed = true;
    for (int k = 0; k < 24 && closed; ++k) {
      double a = 0.1 + k * M_PI / 12, qx = x + 1e-5 * std::cos(a), qy = y + 1e-5 * std::sin(a); bool in = false;
      for (Tri const *t : brim) { double x0 = t->v[0].x, y0 = t->v[0].y, ax = t->v[1].x - x0, ay = t->v[1].y - y0, bx = t->v[2].x - x0, by = t->v[2].y - y0, det = ax * by - ay * bx, px = qx - x0, py = qy - y0, u = (px * by - py * bx) / det, v = (ax * py - ay * px) / det; in = in || (u > 0 && v > 0 && u + v < 1); }
      closed = in;
    }
    if (closed) { tops.emplace_back(bz, bmu); maybe = -1e300; }
  }
  for (auto &p : tops) if (!h.ok || p.first > h.z) { h.ok = true; h.z = p.first; h.mu = p.second; }
  for (auto &p : tops) if (h.ok && p.first > h.z - 1e-9 && p.second != h.mu) h.amb = true;
  if (maybe > -1e299 && (!h.ok || maybe > h.z - 1e-6)) h.amb = true;
  return h;
}
inline Hit sample(Flat const &f, double x, double y) {
  Hit h; V3 fn = unit(f.n); 
  if (std::fabs(fn.z) < 1e-6) { h.amb = true; return h; }
  h.ok = true; h.mu = f.mu; h.z = f.o.z - (fn.x * (x - f.o.x) + fn.y * (y - f.o.y)) / fn.z;
  return h;
}
template <class G> Out sampling(G const &ground, Pose const &ps, Rib const &rb) {
  Out o; V3 C = at(ps, V3(0, rb.y, 0)); double R = rb.R, dx = 0.1 * R, dy = 0.3 * rb.W;
  V3 at4[4] = {C + dx * ps.ex, C - dx * ps.ex, C + dy * ps.ey, C - dy * ps.ey};
  V3 q[4]; double mu = 0; bool ok = true, amb = false;
  for (int k = 0; k < 4; ++k) { Hit h = sample(ground, at4[k].x, at4[k].y); amb = amb || h.amb; ok = ok && h.ok; q[k] = V3(at4[k].x, at4[k].y, h.z); mu += h.mu / 4; }
  Out nc = no_contact(ps, rb); nc.amb = amb;
  if (!ok) return nc;
  V3 P = 0.25 * (q[0] + q[1] + q[2] + q[3]);
  V3 cr = cross(q[0] - q[1], q[2] - q[3]);
  double cn = norm(cr);
  V3 n = unit(cr); 
  if (cn < 1e-9) { nc.amb = true; return nc; }
  double lat = dot(n, ps.ey); double cosl = std::sqrt(std::max(0.0, 1 - lat * lat));
  if (1 - std::fabs(lat) < 1e-6) amb = true;
  double depth = R * cosl - norm(P - C);
  if (std::fabs(depth) < 1e-9) { nc.amb = true; }
  if (!(depth > 0)) return nc;
  o.contact = true; o.amb = amb || nc.amb; o.p = P; o.n = n; o.fr = mu; o.depth = depth;
  double c = std::sqrt(std::max(0.0, depth * (2 * R - depth)));
  o.area = 2 * c * rb.W; o.vol = (R * R * std::acos(std::max(-1.0, std::min(1.0, (R - depth) / R))) - (R - depth) * c) * rb.W;
  o.ntol = 1e-6 + 1e-13 * (1 + maxabs(P)) * (dx + dy) / cn;
  return o;
}

// ---- mesh files: what a byte string means
enum Meaning { WELL, BAD, OPEN }; // must load exactly / must be refused / either, but never something else silently
struct Parsed { Meaning m = OPEN; std::vector<Tri> tris; std::string why; };
Parsed parse_rdf(std::string const &text, Pose const &ps);
Parsed parse_obj(std::string const &text, double mu, Pose const &ps);

} // namespace ref
#endif
