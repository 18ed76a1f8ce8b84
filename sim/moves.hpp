// Moves of things: written by generators, given to things and to their models. C21 C23
#ifndef SIM_MOVES_HPP
#define SIM_MOVES_HPP
#include "props.hpp"

namespace sim {
using ref::cross; using ref::dot; using ref::norm; using ref::unit;
inline V3 turned(V3 p, double a, V3 x) { return std::cos(a) * p + std::sin(a) * cross(x, p) + (dot(x, p) * (1 - std::cos(a))) * x; }
inline V3 lin(Pose const &q, V3 p) { return p.x * q.ex + p.y * q.ey + p.z * q.ez; }
inline void put3(Op &o, char const *k, V3 v) { std::string s(k); o.set(s + "x", v.x).set(s + "y", v.y).set(s + "z", v.z); }
inline V3 get3(Op const &o, char const *k) { std::string s(k); return V3(o.d(s + "x"), o.d(s + "y"), o.d(s + "z")); }
inline void put_move(Rng &r, Op &o, double big) {
  double u = r.uni();
  if (r.chance(0.06)) { // many small moves
    double e = r.logu(1e-9, 1e-3); o.set("rep", r.range(20, 600)); bool t = r.chance(0.5); o.set("how", t ? "translate" : "rotate"); if (!t) o.set("a", r.chance(0.5) ? e : -e);
    V3 v(r.chance(0.4) ? 0 : r.uni(-1, 1), r.chance(0.4) ? 0 : r.uni(-1, 1), r.uni(0.1, 1)); put3(o, "v", t ? e * v : v); return;
  }
  if (u < 0.4) { o.set("how", "translate"); put3(o, "v", V3(r.uni(-big, big), r.uni(-big, big), r.uni(-big, big))); }
  else if (u < 0.75) { o.set("how", "rotate").set("a", r.chance(0.2) ? r.range(-4, 4) * M_PI / 4 : r.uni(-3.2, 3.2)); put3(o, "v", r.chance(0.4) ? V3(r.chance(0.5), 0, 1) : V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1))); }
  else { o.set("how", "transform"); put_pose(o, V3(r.uni(-big, big), r.uni(-big, big), r.uni(-big, big)), r.uni(-3.2, 3.2), r.chance(0.4) ? 0 : r.uni(-1.5, 1.5), r.uni(-3.2, 3.2)); }
}
inline std::function<V3(V3)> move_of(Op const &op, std::function<V3(V3)> *linear) {
  std::string how = op.s("how", "translate"); V3 v = get3(op, "v"); if (how == "translate") { *linear = [](V3 p) { return p; }; return [v](V3 p) { return p + v; }; }
  if (how == "rotate") { V3 x = unit(v); double a = op.d("a"); std::function<V3(V3)> f = [x, a](V3 p) { return turned(p, a, x); }; *linear = f; return f; }
  Pose q = pose_of(op); *linear = [q](V3 p) { return lin(q, p); }; return [q](V3 p) { return q.o + lin(q, p); };
}
template <class T> inline void give(T &x, Op const &op) { std::string how = op.s("how", "translate"); V3 v = get3(op, "v"); if (how == "translate") x.translate(v); else if (how == "rotate") x.rotate(op.d("a"), unit(v)); else x.transform(pose_of(op)); }
inline bool usable(Op const &op) { return op.s("how", "translate") != "rotate" || norm(get3(op, "v")) > 1e-6; }

} // namespace sim
#endif
