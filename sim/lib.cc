#include "lib.hpp"
#include "enve.hh"
#include "enve_sfun_interface.h"
#include <sstream>
#include <streambuf>

namespace lib {
using sim::LibCall;
typedef acme::affine affine;
static affine aff(Pose const &p) {
  affine a; a.matrix() << p.ex.x, p.ey.x, p.ez.x, p.o.x, p.ex.y, p.ey.y, p.ez.y, p.o.y, p.ex.z, p.ey.z, p.ez.z, p.o.z, 0, 0, 0, 1; return a;
}
template <class T> static V3 v3(T const &v) { return V3(v.x(), v.y(), v.z()); }
static acme::point pt(V3 v) { return acme::point(v.x, v.y, v.z); }
static acme::vec3 ve(V3 v) { return acme::vec3(v.x, v.y, v.z); }
static Pose un(affine const &a) { Pose p; auto const &m = a.matrix(); p.o = V3(m(0, 3), m(1, 3), m(2, 3)); p.ex = V3(m(0, 0), m(1, 0), m(2, 0)); p.ey = V3(m(0, 1), m(1, 1), m(2, 1)); p.ez = V3(m(0, 2), m(1, 2), m(2, 2)); return p; }
static Box bx(acme::aabb const &b) { Box r; r.lo = v3(b.min()); r.hi = v3(b.max()); return r; }

Res guarded(long fail, long burst, std::function<void()> const &f) {
  Res r;
  if (fail > 0) sim::alloc_arm(fail, burst);
  try { f(); }
  catch (std::bad_alloc const &) { r.ok = false; r.oom = true; r.what = "bad_alloc"; }
  catch (std::exception const &e) { r.ok = false; r.what = e.what(); }
  if (fail > 0) r.failed = sim::alloc_disarm();
  return r;
}

typedef enve::triangleground tg;
static TriView view_of(tg const &t) {
  TriView r; r.id = t.id(); r.bid = t.bbox().id(); for (int k = 0; k < 3; ++k) r.v[k] = v3(k == 1 ? t[1] : t.vertex(k)); r.mu = t.friction(); r.n = v3(t.normal()); r.b = bx(t.bbox()); return r;
}
TriView Held::view() const { LibCall l; return view_of(*static_cast<tg const *>(p.get())); }

struct SinkBuf : std::streambuf {
  Sink &k; long left, gap; explicit SinkBuf(Sink &x) : k(x), left(x.room), gap(x.gap) { k.text.clear(); k.text.reserve(size_t(x.cap)); }
  bool take(char ch) { if (left == 0 && gap > 0 && --gap == 0) { left = -1; if (k.throws) throw std::runtime_error("the stream buffer gives up"); return false; } if (left == 0 || k.text.size() + 1 >= k.text.capacity()) { if (k.throws) throw std::runtime_error("the stream buffer gives up"); return false; } if (left > 0) --left; k.text.push_back(ch); return true; }
  int_type overflow(int_type ch) override { if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch); return take(traits_type::to_char_type(ch)) ? ch : traits_type::eof(); }
  std::streamsize xsputn(char const *s, std::streamsize n) override { std::streamsize i = 0; while (i < n && take(s[i])) ++i; return i; }
  int sync() override { return left == 0 ? -1 : 0; }
};
// f runs inside the library scope, with a stream that ends as the sink says
template <class F> static void into(Sink &k, F f) {
  SinkBuf b(k); std::ostream os(&b); os.precision(k.precision); if (k.exceptions) os.exceptions(std::ios::badbit | std::ios::failbit);
  try { LibCall l; f(os); } catch (...) { k.failed = !os; throw; }
  k.failed = !os;
}
struct MeshImpl { enve::ground::mesh *m; explicit MeshImpl(enve::ground::mesh *x) : m(x) {} ~MeshImpl() { LibCall l; delete m; } };
// the wrapper node must not fail half way: it is allocated before the library object
template <class I, class F> static std::shared_ptr<I> wrap(F make) { auto s = std::make_shared<I>(nullptr); { LibCall l; s->m = make(); } return s; }
Mesh::Mesh() { p = wrap<MeshImpl>([] { return new enve::ground::mesh(); }); }
Mesh::Mesh(std::vector<Tri> const &t, std::vector<long> const *ids) {
  p = wrap<MeshImpl>([&] {
    tg::vecptr v; v.reserve(t.size());
    for (size_t i = 0; i < t.size(); ++i) v.push_back(std::make_shared<tg const>(acme::integer(ids ? (*ids)[i] : long(i)), t[i].mu, pt(t[i].v[0]), pt(t[i].v[1]), pt(t[i].v[2])));
    return new enve::ground::mesh(v);
  });
}
Mesh::Mesh(std::string const &path, Pose const &ps) { p = wrap<MeshImpl>([&] { return new enve::ground::mesh(path, aff(ps)); }); }
Mesh::Mesh(std::string const &path, double mu, Pose const &ps) { p = wrap<MeshImpl>([&] { return new enve::ground::mesh(path, mu, aff(ps)); }); }
void Mesh::copy(Mesh const &o) { LibCall l; p->m->copy(*o.p->m); }
void Mesh::clear() { LibCall l; p->m->clear(); }
bool Mesh::load(std::string const &path, Pose const &ps) { affine a = aff(ps); LibCall l; return p->m->load(path, a); }
bool Mesh::load(std::string const &path, double mu, Pose const &ps) { affine a = aff(ps); LibCall l; return p->m->load(path, mu, a); }
void Mesh::build() { LibCall l; p->m->buildAABBtree(); }
void Mesh::print(std::string const &path) const { LibCall l; p->m->print(path); }
size_t Mesh::size() const { LibCall l; return p->m->size(); }
TriView Mesh::tri(size_t i) const { LibCall l; return view_of(*(*p->m)[i]); }
std::vector<TriView> Mesh::tris() const { std::vector<TriView> r; r.reserve(size()); LibCall l; for (auto &t : p->m->vecptrTriangleground()) r.push_back(view_of(*t)); return r; }
Held Mesh::hold(size_t i) const { LibCall l; Held h; h.p = p->m->ptrTriangleground(i); return h; }
bool Mesh::query(Box const &b, std::vector<Held> &out) const {
  bool r; tg::vecptr v;
  { LibCall l; if (std::signbit(b.lo.x) && p->m->size() > 0) v.assign(2, p->m->ptrTriangleground(0)); acme::aabb::ptr box = std::make_shared<acme::aabb const>(pt(b.lo), pt(b.hi)); r = p->m->intersection(box, v); } // the list passed in may hold what an earlier query found
  out.clear(); for (auto &t : v) { Held h; h.p = t; out.push_back(h); }
  { LibCall l; v.clear(); }
  return r;
}

struct FlatImpl { enve::ground::flat *m; explicit FlatImpl(enve::ground::flat *x) : m(x) {} ~FlatImpl() { LibCall l; delete m; } };
Flat::Flat(double mu, V3 o, V3 n, int form) {
  p = wrap<FlatImpl>([&] {
    typedef enve::ground::flat F; if (form == 1) return new F(mu, o.x, o.y, o.z, n.x, n.y, n.z);
    if (form == 2) return new F(mu, acme::plane(pt(o), ve(n)));
    if (form == 3) return new F(mu, o.x, o.y, o.z, n.x, n.y, n.z);
    if (form == 4) { std::unique_ptr<F> f(new F()); F a(mu, pt(o), ve(n)); f->copy(a); return f.release(); }
    return new F(mu, pt(o), ve(n)); });
}
void Flat::set(double mu, V3 o, V3 n) { LibCall l; p->m->friction() = mu; p->m->layingPlane().origin() = pt(o); p->m->layingPlane().normal() = ve(n); p->m->layingPlane().normalize(); }
void Flat::assign(Flat const &o) { LibCall l; p->m->copy(*o.p->m); }
void Flat::translate(V3 v) { LibCall l; p->m->translate(ve(v)); }
void Flat::rotate(double a, V3 x) { LibCall l; p->m->rotate(a, ve(x)); }
void Flat::transform(Pose const &ps) { affine a = aff(ps); LibCall l; p->m->transform(a); }
ref::Flat Flat::view() const { LibCall l; enve::ground::flat const &f = *p->m; ref::Flat r; r.o = v3(f.layingPlane().origin()); r.n = v3(f.layingPlane().normal()); r.mu = f.friction(); return r; }
void Flat::print(Sink &k) const { into(k, [&](std::ostream &os) { p->m->print(os); }); }
bool Flat::like(Flat const &o) const { LibCall l; return p->m->isApprox(*o.p->m); }

struct PartImpl { tg *m; explicit PartImpl(tg *x) : m(x) {} ~PartImpl() { LibCall l; delete m; } };
Part::Part() { p = wrap<PartImpl>([] { return new tg(); }); }
Part::Part(long id, double mu, V3 a, V3 b, V3 c, int form) {
  p = wrap<PartImpl>([&] {
    acme::integer i(id); if (form == 1) return new tg(i, mu, a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z);
    if (form == 2) { acme::point const v[3] = {pt(a), pt(b), pt(c)}; return new tg(i, mu, v); }
    if (form == 3) { std::unique_ptr<tg> t(new tg()); tg o(i, mu, pt(a), pt(b), pt(c)); t->copy(o); return t.release(); }
    return new tg(i, mu, pt(a), pt(b), pt(c)); });
}
void Part::print(Sink &k) const { into(k, [&](std::ostream &os) { p->m->print(os); }); }
void Part::copy(Part const &o) { LibCall l; p->m->copy(*o.p->m); }
void Part::translate(V3 v) { LibCall l; p->m->translate(ve(v)); }
void Part::rotate(double a, V3 x) { LibCall l; p->m->rotate(a, ve(x)); }
void Part::transform(Pose const &ps) { affine a = aff(ps); LibCall l; p->m->transform(a); }
void Part::swap(int i, int j) { LibCall l; p->m->swap(i, j); }
TriView Part::view() const { LibCall l; return view_of(*p->m); }
bool Part::like(Part const &o) const { LibCall l; return p->m->isApprox(*o.p->m); }
static tg::vecptr list_of(std::vector<Part> const &t) { tg::vecptr v; v.reserve(t.size()); for (auto &x : t) { std::shared_ptr<tg> c = std::make_shared<tg>(); c->copy(*x.p->m); v.push_back(c); } return v; }
Mesh mesh_of(std::vector<Part> const &t) { Mesh r; r.p = wrap<MeshImpl>([&] { tg::vecptr v = list_of(t); return new enve::ground::mesh(v); }); return r; }
struct RibImpl { enve::rib *m; explicit RibImpl(enve::rib *x) : m(x) {} ~RibImpl() { LibCall l; delete m; } };
RibPart::RibPart() { p = wrap<RibImpl>([] { return new enve::rib(); }); }
RibPart::RibPart(long id, double R, double y, double W, double angle) { p = wrap<RibImpl>([&] { return new enve::rib(acme::integer(id), R, y, W, angle); }); }
RibPart RibPart::twin() const { RibPart r(*this); r.p = wrap<RibImpl>([&] { return new enve::rib(*p->m); }); return r; }
void RibPart::copy(RibPart const &o) { LibCall l; p->m->copy(*o.p->m); }
void RibPart::set(double W, double a) { LibCall l; p->m->width() = W; p->m->angle() = a; }
void RibPart::translate(V3 v) { LibCall l; p->m->translate(ve(v)); }
std::vector<double> RibPart::view() const { LibCall l; enve::rib const &r = *p->m; V3 c = v3(r.center()), n = v3(r.normal()); return {r.radius(), r.width(), r.angle(), c.x, c.y, c.z, n.x, n.y, n.z}; }
bool RibPart::like(RibPart const &o) const { LibCall l; return p->m->isApprox(*o.p->m); }
static Out un(enve::output const &r) { Out o; o.p = v3(r.point); o.n = v3(r.normal); o.fr = r.friction; o.depth = r.depth; o.area = r.area; o.vol = r.volume; return o; }
bool RibPart::envelop(std::vector<Part> const &g, Pose const &ps, std::string const &method, Out &o) const { affine a = aff(ps); std::string me(method); LibCall l; enve::output r; tg::vecptr v = list_of(g); bool k = p->m->envelop(v, a, me, r); o = un(r); return k; }
bool RibPart::envelop(Flat const &g, Pose const &ps, std::string const &method, Out &o) const { affine a = aff(ps); std::string me(method); LibCall l; enve::output r; bool k = p->m->envelop(*g.p->m, a, me, r); o = un(r); return k; }
bool RibPart::envelop(Pose const &ps, Out &o) const { affine a = aff(ps); LibCall l; enve::output r; bool k = p->m->envelop(a, r); o = un(r); return k; }

struct ShapeImpl { enve::shape *m; explicit ShapeImpl(enve::shape *x) : m(x) {} ~ShapeImpl() { LibCall l; delete m; } };
ShapePart::ShapePart() { p = wrap<ShapeImpl>([] { return new enve::shape(); }); }
ShapePart::ShapePart(double const v[5]) { p = wrap<ShapeImpl>([&] { return new enve::shape(v[0], v[1], v[2], v[3], v[4]); }); }
ShapePart ShapePart::twin() const { ShapePart r(*this); r.p = wrap<ShapeImpl>([&] { return new enve::shape(*p->m); }); return r; }
void ShapePart::copy(ShapePart const &o) { LibCall l; p->m->copy(*o.p->m); }
void ShapePart::set(int k, double x) { LibCall l; enve::shape &s = *p->m; (k == 0 ? s.Rx() : k == 1 ? s.Mx() : k == 2 ? s.Ry() : k == 3 ? s.My() : s.Ly()) = x; }
std::vector<double> ShapePart::view() const { LibCall l; enve::shape const &s = *p->m; return {s.Rx(), s.Mx(), s.Ry(), s.My(), s.Ly(), s.surfaceMaxRadius(), s.surfaceMaxWidth(), s.surfaceWidth()}; }
std::vector<double> ShapePart::at(double y) const { LibCall l; enve::shape const &s = *p->m; return {s.surfaceRadius(y), s.surfaceDerivative(y), s.surfaceAngle(y)}; }
bool ShapePart::like(ShapePart const &o) const { LibCall l; return p->m->isApprox(*o.p->m); }
void ShapePart::print(Sink &k) const { into(k, [&](std::ostream &os) { p->m->print(os); }); }
struct ShellImpl { enve::shell *m; explicit ShellImpl(enve::shell *x) : m(x) {} ~ShellImpl() { LibCall l; delete m; } };
Shell::Shell(size_t n, double rx, double mx, double ry, double my, double ly) { p = wrap<ShellImpl>([&] { return new enve::shell(n, rx, mx, ry, my, ly); }); }
void Shell::resize(size_t n) { LibCall l; p->m->resize(n); }
size_t Shell::size() const { LibCall l; return p->m->size(); }
bool Shell::setup(Mesh const &m, Pose const &ps, std::string const &method) { acme::affine a = aff(ps); std::string me(method); LibCall l; return p->m->setup(*m.p->m, a, me); }
bool Shell::setup(Flat const &f, Pose const &ps, std::string const &method) { acme::affine a = aff(ps); std::string me(method); LibCall l; return p->m->setup(*f.p->m, a, me); }
ref::Rib Shell::rib(size_t i) const { LibCall l; ref::Rib r; r.R = p->m->ribRadius(i); r.y = p->m->ribCenter(i).y(); r.W = p->m->ribWidth(i); return r; }
double Shell::rib_angle(size_t i) const { LibCall l; return p->m->ribAngle(i); }
V3 Shell::rib_center(size_t i) const { LibCall l; return v3(p->m->ribCenter(i)); }
std::vector<double> Shell::surface() const { LibCall l; enve::shell const &s = *p->m; return {s.surfaceMaxRadius(), s.surfaceMaxWidth(), s.surfaceWidth()}; }
bool Shell::within(double y) const { LibCall l; return p->m->checkWidthBound(y); }
std::vector<double> Shell::surface(double y) const { LibCall l; enve::shell const &s = *p->m; return {s.surfaceRadius(y), s.surfaceDerivative(y), s.surfaceAngle(y)}; }
void Shell::translate(V3 v) { LibCall l; p->m->translate(ve(v)); }
void Shell::rotate(double a, V3 x) { LibCall l; p->m->rotate(a, ve(x)); }
void Shell::transform(Pose const &ps) { LibCall l; p->m->transform(aff(ps)); }
Pose Shell::pose() const { LibCall l; return un(p->m->transformation()); }
std::vector<Pose> Shell::poses() const {
  LibCall l; enve::shell const &s = *p->m; std::vector<Pose> r; acme::vec3 t = s.translation();
  for (int k = 0; k < 2; ++k) { acme::mat3 m = k ? s.linear() : s.rotation(); Pose q; q.o = v3(t); q.ex = V3(m(0, 0), m(1, 0), m(2, 0)); q.ey = V3(m(0, 1), m(1, 1), m(2, 1)); q.ez = V3(m(0, 2), m(1, 2), m(2, 2)); r.push_back(q); }
  Pose q; q.o = v3(t); q.ex = v3(s.x()); q.ey = v3(s.y()); q.ez = v3(s.z()); r.push_back(q); return r;
}
bool Shell::rigid(double const m[16]) const { acme::affine a; for (int i = 0; i < 16; ++i) a.matrix()(i % 4, i / 4) = m[i]; LibCall l; return p->m->checkTransformation(a); }
Box Shell::bbox() const { LibCall l; return bx(*p->m->bbox()); }
Out Shell::out(size_t i) const {
  LibCall l; Out o; enve::shell const &s = *p->m; acme::point a; acme::vec3 n;
  s.contactPoint(i, a); s.contactNormal(i, n); s.contactFriction(i, o.fr); s.contactDepth(i, o.depth); s.contactArea(i, o.area); s.contactVolume(i, o.vol);
  o.p = v3(a); o.n = v3(n); return o;
}
Out Shell::out() const {
  LibCall l; Out o; enve::shell const &s = *p->m; acme::point a; acme::vec3 n;
  s.contactPoint(a); s.contactNormal(n); s.contactFriction(o.fr); s.contactDepth(o.depth); s.contactArea(o.area); s.contactVolume(o.vol);
  o.p = v3(a); o.n = v3(n); return o;
}
void Shell::lists(size_t k, Lists &r) const {
  enve::shell const &s = *p->m;
  std::vector<acme::point> P; std::vector<acme::vec3> N, A; std::vector<acme::affine> F; std::vector<double> fr, de, ar, vo;
  { LibCall l;
    P.resize(k); N.resize(k); A.resize(k); F.resize(k); fr.assign(k, -7); de.assign(k, -7); ar.assign(k, -7); vo.assign(k, -7);
    s.contactPoint(P); s.contactNormal(N); s.contactFriction(fr); s.contactDepth(de); s.contactArea(ar); s.contactVolume(vo); s.contactPointAffine(F); s.relativeAngles(A); }
  r = Lists(); for (auto &x : P) r.p.push_back(v3(x)); for (auto &x : N) r.n.push_back(v3(x)); for (auto &x : A) r.rel.push_back(v3(x)); for (auto &x : F) r.aff.push_back(un(x));
  r.fr = fr; r.depth = de; r.area = ar; r.vol = vo;
}
Pose Shell::affine(size_t i) const { LibCall l; acme::affine a; p->m->contactPointAffine(i, a); return un(a); }
Pose Shell::affine() const { LibCall l; acme::affine a; p->m->contactPointAffine(a); return un(a); }
V3 Shell::rel(size_t i) const { LibCall l; acme::vec3 a; p->m->relativeAngles(i, a); return v3(a); }
V3 Shell::rel() const { LibCall l; acme::vec3 a; p->m->relativeAngles(a); return v3(a); }
V3 Shell::euler() const { LibCall l; acme::vec3 a; p->m->eulerAngles(a); return v3(a); }
void Shell::print(Sink &k) const { into(k, [&](std::ostream &os) { p->m->print(os); }); }
std::string Shell::print() const { std::ostringstream os; { LibCall l; p->m->print(os); } if (!os) throw std::runtime_error("the stream given failed"); return os.str(); }

struct TreeImpl { acme::AABBtree *m; explicit TreeImpl(acme::AABBtree *x) : m(x) {} ~TreeImpl() { LibCall l; delete m; } };
Tree::Tree() { p = wrap<TreeImpl>([] { return new acme::AABBtree(); }); }
void Tree::build(std::vector<Box> const &b) {
  LibCall l; acme::aabb::vecptr v; v.reserve(b.size());
  for (size_t i = 0; i < b.size(); ++i) v.push_back(std::make_shared<acme::aabb const>(pt(b[i].lo), pt(b[i].hi), acme::integer(i)));
  p->m->build(v);
}
void Tree::clear() { LibCall l; p->m->clear(); }
void Tree::print(Sink &k) const { into(k, [&](std::ostream &os) { p->m->print(os); }); }
bool Tree::empty() const { LibCall l; return p->m->isEmpty(); }
void Tree::pairs(Tree const &o, std::vector<std::pair<long, long>> &out, int swap) const {
  acme::aabb::vecpairptr v;
  { LibCall l; if (swap < 0) p->m->intersection(*o.p->m, v); else p->m->intersection(*o.p->m, v, swap != 0); }
  for (auto &q : v) out.emplace_back(q.first->id(), q.second->id());
  { LibCall l; v.clear(); v.shrink_to_fit(); }
}
bool Tree::collide(Tree const &o, std::function<bool(long, long)> const &f, int swap) const {
  LibCall l; auto g = [&f](acme::aabb::ptr a, acme::aabb::ptr b) { return f(a->id(), b->id()); }; return swap < 0 ? p->m->collision(*o.p->m, g) : p->m->collision(*o.p->m, g, swap != 0);
}

char const *kind_name[NQUERIES] = {"none", "point", "line", "ray", "plane", "segment", "triangle", "disk", "ball", "degenerated", "clampable", "non-clampable"};
static void add3(std::vector<double> &v, V3 x) { v.push_back(x.x); v.push_back(x.y); v.push_back(x.z); }
void print_entity(int k, V3 a, V3 b, V3 c, Sink &s, std::vector<double> &v) {
  v.clear(); v.reserve(20);
  switch (k) {
  case 0: { acme::point e(pt(a)); add3(v, v3(e)); into(s, [&](std::ostream &os) { os << e; }); break; }
  case 1: { acme::vec3 e(ve(a)); add3(v, v3(e)); into(s, [&](std::ostream &os) { acme::operator<<(os, e); }); break; }
  case 2: { acme::line e(pt(a), ve(b)); add3(v, v3(e.origin())); add3(v, v3(e.direction())); into(s, [&](std::ostream &os) { os << e; }); break; }
  case 3: { acme::ray e(pt(a), ve(b)); add3(v, v3(e.origin())); add3(v, v3(e.direction())); into(s, [&](std::ostream &os) { os << e; }); break; }
  case 4: { acme::plane e(pt(a), ve(b)); add3(v, v3(e.origin())); add3(v, v3(e.normal())); into(s, [&](std::ostream &os) { os << e; }); break; }
  case 5: { acme::segment e(pt(a), pt(b)); add3(v, v3(e.vertex(0))); add3(v, v3(e.vertex(1))); into(s, [&](std::ostream &os) { os << e; }); break; }
  case 6: { acme::triangle e(pt(a), pt(b), pt(c)); for (int i = 0; i < 3; ++i) add3(v, v3(e.vertex(i))); into(s, [&](std::ostream &os) { os << e; }); break; }
  case 7: { acme::disk e(c.x, pt(a), ve(b)); v.push_back(e.radius()); add3(v, v3(e.center())); add3(v, v3(e.normal())); into(s, [&](std::ostream &os) { os << e; }); break; }
  case 8: { acme::ball e(c.x, pt(a)); v.push_back(e.radius()); add3(v, v3(e.center())); into(s, [&](std::ostream &os) { os << e; }); break; }
  case 9: { acme::aabb e(pt(a), pt(b), 3); add3(v, v3(e.min())); add3(v, v3(e.max())); into(s, [&](std::ostream &os) { os << e; }); break; }
  default: { Pose q; q.o = a; q.ex = b; q.ey = c; q.ez = V3(c.z, a.x, b.y); affine e = aff(q); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) v.push_back(e(i, j)); into(s, [&](std::ostream &os) { acme::operator<<(os, e); }); break; }
  }
}
struct EntImpl {
  int k; std::unique_ptr<acme::entity> e; acme::aabb::ptr b0; std::shared_ptr<acme::aabb> b; // an entity, or a box
  explicit EntImpl(int kind) : k(kind) {} ~EntImpl() { LibCall l; e.reset(); b.reset(); }
};
#define ENT(T) (*static_cast<acme::T *>(p->e.get()))
template <class F> static auto on_ent(EntImpl const &i, F &&f) -> decltype(f(*static_cast<acme::point *>(i.e.get()))) {
  switch (i.k) {
  case POINT: return f(*static_cast<acme::point *>(i.e.get())); case LINE: return f(*static_cast<acme::line *>(i.e.get())); case RAY: return f(*static_cast<acme::ray *>(i.e.get())); case PLANE: return f(*static_cast<acme::plane *>(i.e.get()));
  case SEGMENT: return f(*static_cast<acme::segment *>(i.e.get())); case TRIANGLE: return f(*static_cast<acme::triangle *>(i.e.get())); case DISK: return f(*static_cast<acme::disk *>(i.e.get())); default: return f(*static_cast<acme::ball *>(i.e.get()));
  }
}
EntPart EntPart::blank(int k) {
  EntPart r; r.p = std::make_shared<EntImpl>(k); std::unique_ptr<acme::entity> &e = r.p->e; LibCall l;
  switch (k) { case POINT: e.reset(new acme::point()); break; case LINE: e.reset(new acme::line()); break; case RAY: e.reset(new acme::ray()); break; case PLANE: e.reset(new acme::plane()); break; case SEGMENT: e.reset(new acme::segment()); break;
    case TRIANGLE: e.reset(new acme::triangle()); break; case DISK: e.reset(new acme::disk()); break; case BALL: e.reset(new acme::ball()); break; default: r.p->b.reset(new acme::aabb()); }
  return r;
}
EntPart::EntPart(int k, V3 a, V3 b, V3 c, double R, int form) {
  p = std::make_shared<EntImpl>(k); std::unique_ptr<acme::entity> &e = p->e; LibCall l; acme::point A(pt(a)), B(pt(b)), C(pt(c)); acme::point abc[3] = {A, B, C}; form %= 3;
  switch (k) {
  case POINT: if (form == 0) e.reset(new acme::point(a.x, a.y, a.z)); else if (form == 1) e.reset(new acme::point(ve(a))); else e.reset(new acme::point(0.5 * ve(a) + 0.5 * ve(a))); break;
  case LINE: if (form) e.reset(new acme::line(A, ve(b))); else e.reset(new acme::line(a.x, a.y, a.z, b.x, b.y, b.z)); break;
  case RAY: if (form) e.reset(new acme::ray(A, ve(b))); else e.reset(new acme::ray(a.x, a.y, a.z, b.x, b.y, b.z)); break;
  case PLANE: if (form) e.reset(new acme::plane(A, ve(b))); else e.reset(new acme::plane(a.x, a.y, a.z, b.x, b.y, b.z)); break;
  case SEGMENT: if (form == 0) e.reset(new acme::segment(a.x, a.y, a.z, b.x, b.y, b.z)); else if (form == 1) e.reset(new acme::segment(A, B)); else e.reset(new acme::segment(abc)); break;
  case TRIANGLE: if (form == 0) e.reset(new acme::triangle(a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z)); else if (form == 1) e.reset(new acme::triangle(A, B, C)); else e.reset(new acme::triangle(abc)); break;
  case DISK: if (form == 0) e.reset(new acme::disk(R, acme::plane(A, ve(b)))); else if (form == 1) e.reset(new acme::disk(R, A, ve(b))); else e.reset(new acme::disk(R, a.x, a.y, a.z, b.x, b.y, b.z)); break;
  case BALL: if (form) e.reset(new acme::ball(R, A)); else e.reset(new acme::ball(R, a.x, a.y, a.z)); break;
  default: if (form) p->b.reset(new acme::aabb(A, B, 5, 6)); else p->b.reset(new acme::aabb(a.x, a.y, a.z, b.x, b.y, b.z, 5, 6)); break;
  }
}
int EntPart::kind() const { return p->k; }
struct Dup { bool moving; std::unique_ptr<acme::entity> &to; template <class T> int operator()(T &x) { if (moving) { T t(x); to.reset(new T(std::move(t))); } else to.reset(new T(x)); return 0; } };
EntPart EntPart::twin(int way) const { EntPart r; r.p = std::make_shared<EntImpl>(p->k); LibCall l; if (p->b) { if (way) { acme::aabb t(*p->b); r.p->b.reset(new acme::aabb(std::move(t))); } else r.p->b.reset(new acme::aabb(*p->b)); } else { Dup d{way != 0, r.p->e}; on_ent(*p, d); } return r; }
struct Asg { bool moving; acme::entity *to; template <class T> int operator()(T &x) { T &y = *static_cast<T *>(to); if (moving) { T t(x); y = std::move(t); } else y = x; return 0; } };
void EntPart::assign(EntPart const &o, bool moving) { LibCall l; if (p->b) { if (moving) { acme::aabb t(*o.p->b); *p->b = std::move(t); } else *p->b = *o.p->b; } else { Asg a{moving, p->e.get()}; on_ent(*o.p, a); } }
void EntPart::set(int i, V3 v, int how) {
  LibCall l; acme::point P(pt(v)); acme::vec3 D(ve(v));
  switch (p->k) {
  case POINT: if (how) ENT(point) = P; else ENT(point) << v.x, v.y, v.z; break;
  case LINE: if (i == 0) ENT(line).origin() = P; else ENT(line).direction() = D; break;
  case RAY: if (i == 0) ENT(ray).origin() = P; else ENT(ray).direction() = D; break;
  case PLANE: if (i == 0) ENT(plane).origin() = P; else ENT(plane).normal() = D; break;
  case SEGMENT: if (how) ENT(segment)[i] = P; else ENT(segment).vertex(i) = P; break;
  case TRIANGLE: if (how) ENT(triangle)[i] = P; else ENT(triangle).vertex(i) = P; break;
  case DISK: if (i == 0) { if (how) ENT(disk).layingPlane().origin() = P; else ENT(disk).center() = P; } else { if (how) ENT(disk).layingPlane().normal() = D; else ENT(disk).normal() = D; } break;
  case BALL: ENT(ball).center() = P; break;
  default: { acme::aabb &b = *p->b; if (how == 0) (i ? b.max() : b.min()) = P; else if (how == 1) { if (i) b.max(v.x, v.y, v.z); else b.min(v.x, v.y, v.z); } else for (int k = 0; k < 3; ++k) (i ? b.max(k) : b.min(k)) = k == 0 ? v.x : k == 1 ? v.y : v.z; break; }
  }
}
void EntPart::radius(double r) { LibCall l; if (p->k == DISK) ENT(disk).radius() = r; else if (p->k == BALL) ENT(ball).radius() = r; }
void EntPart::number(long id, long pos) { LibCall l; if (p->b) { p->b->id() = acme::integer(id); p->b->pos() = acme::integer(pos); } }
std::pair<long, long> EntPart::number() const { LibCall l; if (!p->b) return {0, 0}; acme::aabb const &b = *p->b; return {b.id(), b.pos()}; }
void EntPart::turn_round(int i, int j) { LibCall l; switch (p->k) { case LINE: ENT(line).reverse(); break; case RAY: ENT(ray).reverse(); break; case PLANE: ENT(plane).reverse(); break; case DISK: ENT(disk).reverse(); break; case SEGMENT: ENT(segment).swap(); break; case TRIANGLE: ENT(triangle).swap(i, j); break; default: break; } }
void EntPart::normalize() { LibCall l; switch (p->k) { case LINE: ENT(line).normalize(); break; case RAY: ENT(ray).normalize(); break; case PLANE: ENT(plane).normalize(); break; case DISK: ENT(disk).normalize(); break; default: break; } }
void EntPart::translate(V3 v) { LibCall l; if (p->b) p->b->translate(pt(v)); else p->e->translate(ve(v)); }
void EntPart::rotate(double a, V3 x) { LibCall l; if (p->e) p->e->rotate(a, ve(x)); }
void EntPart::transform(Pose const &ps) { affine a = aff(ps); LibCall l; if (p->e) p->e->transform(a); }
std::vector<V3> EntPart::raw() const {
  LibCall l; std::vector<V3> v;
  switch (p->k) {
  case POINT: v = {v3(ENT(point))}; break; case LINE: { acme::line const &x = ENT(line); v = {v3(x.origin()), v3(x.direction())}; break; } case RAY: { acme::ray const &x = ENT(ray); v = {v3(x.origin()), v3(x.direction())}; break; } case PLANE: { acme::plane const &x = ENT(plane); v = {v3(x.origin()), v3(x.normal())}; break; }
  case SEGMENT: { acme::segment const &x = ENT(segment); v = {v3(x.vertex(0)), v3(x[1])}; break; } case TRIANGLE: { acme::triangle const &x = ENT(triangle); v = {v3(x.vertex(0)), v3(x[1]), v3(x.vertex(2))}; break; }
  case DISK: { acme::disk const &x = ENT(disk); v = {v3(x.center()), v3(x.normal())}; break; } case BALL: { acme::ball const &x = ENT(ball); v = {v3(x.center())}; break; }
  default: {
    acme::aabb const &x = *p->b; V3 lo(v3(x.min())), hi(v3(x.max()));
    for (int k = 0; k < 3; ++k) { double &l1 = k == 0 ? lo.x : k == 1 ? lo.y : lo.z, &h1 = k == 0 ? hi.x : k == 1 ? hi.y : hi.z; if (l1 != x.min(k)) l1 = NAN; if (h1 != x.max(k)) h1 = NAN; }
    v = {lo, hi}; break;
  }
  }
  return v;
}
double EntPart::radius() const { LibCall l; if (p->k == DISK) return static_cast<acme::disk const &>(ENT(disk)).radius(); if (p->k == BALL) return static_cast<acme::ball const &>(ENT(ball)).radius(); return 0; }
std::vector<double> EntPart::derived(V3 q) const {
  LibCall l; std::vector<double> v; acme::point Q(pt(q));
  switch (p->k) {
  case LINE: { acme::line const &x = ENT(line); add3(v, v3(x.toVector())); add3(v, v3(x.toUnitVector())); break; }
  case RAY: { acme::ray const &x = ENT(ray); add3(v, v3(x.toVector())); add3(v, v3(x.toUnitVector())); break; }
  case PLANE: { acme::plane const &x = ENT(plane); add3(v, v3(x.unitNormal())); v.push_back(x.d()); v.push_back(x.distance(Q)); v.push_back(x.squaredDistance(Q)); v.push_back(x.signedDistance(Q)); break; }
  case SEGMENT: { acme::segment const &x = ENT(segment); add3(v, v3(x.centroid())); add3(v, v3(x.toVector())); add3(v, v3(x.toUnitVector())); v.push_back(x.length()); break; }
  case TRIANGLE: { acme::triangle const &x = ENT(triangle); add3(v, v3(x.centroid())); for (int i = 0; i < 3; ++i) { acme::segment s(x.edge(i)); add3(v, v3(s.vertex(0))); add3(v, v3(s.vertex(1))); } add3(v, v3(x.normal())); v.push_back(x.perimeter()); v.push_back(x.area());
    double a, b, c; x.barycentric(Q, a, b, c); v.push_back(a); v.push_back(b); v.push_back(c); acme::plane pl(x.layingPlane()); for (int i = 0; i < 3; ++i) v.push_back(pl.distance(x.vertex(i))); add3(v, v3(pl.unitNormal())); break; }
  case DISK: { acme::disk const &x = ENT(disk); v.push_back(x.perimeter()); v.push_back(x.area()); add3(v, v3(x.layingPlane().origin())); add3(v, v3(x.layingPlane().normal())); break; }
  case BALL: { acme::ball const &x = ENT(ball); v.push_back(x.area()); v.push_back(x.volume()); break; }
  default: break;
  }
  return v;
}
struct In { acme::point q; bool operator()(acme::point &x) { return (x - q).norm() < 1e-9; } template <class T> bool operator()(T &x) { return static_cast<T const &>(x).isInside(q); } };
bool EntPart::inside(V3 q) const { LibCall l; if (p->b) return p->b->isInside(pt(q)); In f{pt(q)}; return on_ent(*p, f); }
bool EntPart::degenerated() const { LibCall l; return p->b ? p->b->isDegenerated() : p->e->isDegenerated(); }
bool EntPart::takes(int i, int way) const {
  LibCall l; acme::triangle &x = ENT(triangle); acme::triangle const &y = x;
  try { acme::point const *q = nullptr; if (way == 0) q = &x.vertex(i); else if (way == 1) q = &y.vertex(i); else if (way == 2) q = &x[i]; else if (way == 3) q = &y[i]; else { acme::segment s(y.edge(i)); return true; } return q != nullptr; } catch (std::exception const &) { return false; }
}
struct Like { acme::entity *o; bool operator()(acme::point &x) { return x.isApprox(*static_cast<acme::point *>(o)); } template <class T> bool operator()(T &x) { return static_cast<T const &>(x).isApprox(*static_cast<T *>(o)); } };
bool EntPart::like(EntPart const &o) const { LibCall l; if (p->b) return p->b->isApprox(*o.p->b); Like f{o.p->e.get()}; return on_ent(*p, f); }
bool EntPart::clamp(Box &b, bool six) const { LibCall l; acme::vec3 lo(ve(b.lo)), hi(ve(b.hi)); bool r; if (six) r = p->e->clamp(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); else r = p->e->clamp(lo, hi); b.lo = v3(lo); b.hi = v3(hi); return r; }
int EntPart::level() const { LibCall l; return int(p->e->level()); }
std::string EntPart::type() const { std::string s; { LibCall l; std::string t = p->e->type(); s.assign(t.c_str()); } return s; }
bool EntPart::meets(EntPart const &o) const { LibCall l; return p->b->intersects(*o.p->b); }
bool EntPart::ordered(bool repair) { LibCall l; return repair ? p->b->updateMaxMin() : p->b->checkMaxMin(); }
void EntPart::wrap_around(V3 a, V3 b, V3 c, bool array) { LibCall l; acme::point v[3] = {pt(a), pt(b), pt(c)}; if (array) p->b->clamp(v); else p->b->clamp(v[0], v[1], v[2]); }
void EntPart::merge(std::vector<EntPart> const &o, bool make) { LibCall l; std::vector<acme::aabb::ptr> v; for (auto &x : o) v.push_back(x.p->b); if (make) p->b.reset(new acme::aabb(v, 8, 9)); else p->b->merged(v); }
struct Own { int i; acme::vec3 const *operator()(acme::point &x) { return &x; } acme::vec3 const *operator()(acme::line &x) { return &x.origin(); } acme::vec3 const *operator()(acme::ray &x) { return &x.origin(); } acme::vec3 const *operator()(acme::plane &x) { return &x.origin(); } acme::vec3 const *operator()(acme::disk &x) { return &x.center(); }
  acme::vec3 const *operator()(acme::segment &x) { return &x.vertex(i); } acme::vec3 const *operator()(acme::triangle &x) { return &x.vertex(i); } acme::vec3 const *operator()(acme::ball &x) { return &static_cast<acme::ball const &>(x).center(); } };
void EntPart::carry(int i) { LibCall l; if (p->b) { p->b->translate(i ? p->b->max() : p->b->min()); return; } Own o{i}; struct Get { EntImpl const &e; Own o; acme::vec3 const *of() { switch (e.k) { case POINT: return o(*static_cast<acme::point *>(e.e.get())); case LINE: return o(*static_cast<acme::line *>(e.e.get())); case RAY: return o(*static_cast<acme::ray *>(e.e.get())); case PLANE: return o(*static_cast<acme::plane *>(e.e.get())); case SEGMENT: return o(*static_cast<acme::segment *>(e.e.get())); case TRIANGLE: return o(*static_cast<acme::triangle *>(e.e.get())); case DISK: return o(*static_cast<acme::disk *>(e.e.get())); default: return o(*static_cast<acme::ball *>(e.e.get())); } } } g{*p, o}; p->e->translate(*g.of()); }
void EntPart::grow(V3 q, bool other) { LibCall l; acme::aabb &b = *p->b; if (other) b.clamp(pt(q), b.max(), b.min()); else b.clamp(b.min(), b.max(), pt(q)); }
double EntPart::away(V3 q, bool far_end) const { LibCall l; acme::aabb const &b = *p->b; return far_end ? b.exteriorDistance(pt(q)) : b.centerDistance(pt(q)); }
void EntPart::forget() { LibCall l; p->b->clear(); }
std::vector<double> constants() {
  using namespace acme; std::vector<double> v; for (vec3 const *x : {&UNITX_VEC3, &UNITY_VEC3, &UNITZ_VEC3, &ZEROS_VEC3, &ONES_VEC3}) add3(v, v3(*x)); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) v.push_back(IDENTITY_MAT4(i, j));
  add3(v, v3(NAN_VEC3)); add3(v, v3(NAN_POINT)); add3(v, v3(NAN_LINE.origin())); add3(v, v3(NAN_RAY.direction())); add3(v, v3(NAN_PLANE.normal())); add3(v, v3(NAN_SEGMENT.vertex(1))); add3(v, v3(NAN_TRIANGLE.vertex(2))); v.push_back(NAN_DISK.radius()); v.push_back(NAN_BALL.radius()); add3(v, v3(NAN_AABB.max())); return v;
}
struct CollImpl { acme::collection *m; std::map<acme::entity const *, long> tag; explicit CollImpl(acme::collection *x) : m(x) {} ~CollImpl() { LibCall l; delete m; } };
Coll::Coll() { p = wrap<CollImpl>([] { return new acme::collection(); }); }
static acme::entity::ptr make_entity(Kind k, V3 a, V3 b, V3 c) {
  acme::entity::ptr e;
  { LibCall l;
    switch (k) {
    case NONE: e.reset(new acme::none()); break;
    case POINT: e.reset(new acme::point(a.x, a.y, a.z)); break;
    case LINE: e.reset(new acme::line(pt(a), ve(b))); break;
    case RAY: e.reset(new acme::ray(pt(a), ve(b))); break;
    case PLANE: e.reset(new acme::plane(pt(a), ve(b))); break;
    case SEGMENT: e.reset(new acme::segment(pt(a), pt(b))); break;
    case TRIANGLE: e.reset(new acme::triangle(pt(a), pt(b), pt(c))); break;
    case DISK: e.reset(new acme::disk(c.x, pt(a), ve(b))); break;
    default: e.reset(new acme::ball(c.x, pt(a))); break;
    } }
  return e;
}
void Coll::push(Kind k, V3 a, V3 b, V3 c, long tag) {
  acme::entity::ptr e = make_entity(k, a, b, c);
  p->tag[e.get()] = tag;
  try { LibCall l; p->m->push_back(e); } catch (...) { p->tag.erase(e.get()); LibCall l; e.reset(); throw; }
}
void Coll::put(size_t i, Kind k, V3 a, V3 b, V3 c, long tag) {
  acme::entity::ptr e = make_entity(k, a, b, c);
  p->tag[e.get()] = tag;
  LibCall l; (*p->m)[acme::integer(i)] = e;
}
Coll Coll::copy() const { Coll c; c.p = wrap<CollImpl>([&] { return new acme::collection(*p->m); }); c.p->tag = p->tag; return c; }
void Coll::clear() { LibCall l; p->m->clear(); }
void Coll::resize(size_t n) { LibCall l; p->m->resize(acme::integer(n)); }
void Coll::carry(size_t i) { LibCall l; acme::entity &e = *(*p->m)[acme::integer(i)]; if (e.isPoint()) p->m->translate(static_cast<acme::point &>(e)); else if (e.isSegment()) p->m->translate(static_cast<acme::segment &>(e).vertex(0)); else if (e.isTriangle()) p->m->translate(static_cast<acme::triangle &>(e).vertex(0)); }
void Coll::translate(V3 v) { LibCall l; p->m->translate(ve(v)); }
void Coll::rotate(double a, V3 x) { LibCall l; p->m->rotate(a, ve(x)); }
void Coll::transform(Pose const &ps) { LibCall l; p->m->transform(aff(ps)); }
size_t Coll::size() const { LibCall l; return size_t(p->m->size()); }
std::vector<long> Coll::tags() const {
  std::vector<long> r; size_t n = size();
  for (size_t i = 0; i < n; ++i) { acme::entity const *e; { LibCall l; e = static_cast<acme::collection const &>(*p->m)[acme::integer(i)].get(); } auto it = p->tag.find(e); r.push_back(!e ? -1 : it == p->tag.end() ? -2 : it->second); }
  return r;
}
#define EACH(M, ...) switch (q) { \
  case NONE: return M(None); case POINT: return M(Point); case LINE: return M(Line); case RAY: return M(Ray); case PLANE: return M(Plane); \
  case SEGMENT: return M(Segment); case TRIANGLE: return M(Triangle); case DISK: return M(Disk); case BALL: return M(Ball); \
  case DEGENERATED: return M(Degenerated); case CLAMPABLE: return M(Clampable); default: return M(NonClampable); }
#define X1(K) p->m->contain##K()
bool Coll::contain(int q) const { LibCall l; EACH(X1) }
#define X2(K) p->m->are##K()
bool Coll::are(int q) const { LibCall l; EACH(X2) }
#define X3(K) p->m->is##K(acme::integer(i))
bool Coll::is(int q, size_t i) const { LibCall l; EACH(X3) }
#define X4(K) p->m->count##K()
long Coll::count(int q) const { LibCall l; EACH(X4) }
#define X5(K) p->m->remove##K()
void Coll::remove(int q) { LibCall l; EACH(X5) }
std::map<std::string, long> Coll::counts() const { std::map<std::string, long> r; std::map<std::string, acme::integer> m; { LibCall l; m = p->m->count(); } for (auto &x : m) r[x.first] = x.second; { LibCall l; m.clear(); } return r; }
void Coll::build() { LibCall l; p->m->buildAABBtree(); }
static void tags_of(CollImpl const &a, CollImpl const *b, acme::collection &c, std::vector<long> &out) {
  out.clear();
  for (acme::integer i = 0; i < acme::integer(c.size()); ++i) {
    acme::entity const *e = c[i].get(); auto it = a.tag.find(e); long t = -2;
    if (it != a.tag.end()) t = it->second; else if (b) { auto j = b->tag.find(e); if (j != b->tag.end()) t = j->second; }
    out.push_back(t);
  }
}
bool Coll::query(Box const &b, std::vector<long> &tags) const {
  std::unique_ptr<acme::collection> c; bool r;
  { LibCall l; c.reset(new acme::collection()); if (std::signbit(b.lo.x) && p->m->size() > 0) c->push_back((*p->m)[0]); acme::aabb::ptr box = std::make_shared<acme::aabb const>(pt(b.lo), pt(b.hi)); r = p->m->intersection(box, *c); }
  tags_of(*p, nullptr, *c, tags); { LibCall l; c.reset(); } return r;
}
bool Coll::query(Coll const &o, std::vector<long> &tags) const {
  std::unique_ptr<acme::collection> c; bool r;
  { LibCall l; c.reset(new acme::collection()); if (p->m->size() > 1) c->push_back((*p->m)[0]); r = p->m->intersection(*o.p->m, *c); }
  tags_of(*p, o.p.get(), *c, tags); { LibCall l; c.reset(); } return r;
}
V3 Coll::anchor(size_t i) const {
  LibCall l; acme::entity const *e = static_cast<acme::collection const &>(*p->m)[acme::integer(i)].get();
  if (auto x = dynamic_cast<acme::point const *>(e)) return v3(*x);
  if (auto x = dynamic_cast<acme::line const *>(e)) return v3(x->origin());
  if (auto x = dynamic_cast<acme::ray const *>(e)) return v3(x->origin());
  if (auto x = dynamic_cast<acme::plane const *>(e)) return v3(x->origin());
  if (auto x = dynamic_cast<acme::segment const *>(e)) return v3(x->vertex(0));
  if (auto x = dynamic_cast<acme::triangle const *>(e)) return v3(x->vertex(0));
  if (auto x = dynamic_cast<acme::disk const *>(e)) return v3(x->center());
  if (auto x = dynamic_cast<acme::ball const *>(e)) return v3(x->center());
  return V3();
}
Box Coll::box_of(size_t i) const {
  LibCall l; acme::vec3 a, b; static_cast<acme::collection const &>(*p->m)[acme::integer(i)]->clamp(a, b); Box r; r.lo = v3(a); r.hi = v3(b);
  return r;
}

void Sfun::init(double n, double rx, double mx, double ry, double my, double ly, double h, double mu) { LibCall l; enve_sfun_init(&n, &rx, &mx, &ry, &my, &ly, &h, &mu); }
void Sfun::out(double const hub[16], Bus &b, double method, double flat) {
  static_assert(sizeof(Bus) == sizeof(EnveOutputBus), "bus layout");
  EnveInputBus in; std::memcpy(in.HubAffine, hub, sizeof in.HubAffine); EnveOutputBus o; std::memcpy(&o, &b, sizeof o);
  struct Back { EnveOutputBus &o; Bus &b; ~Back() { std::memcpy(&b, &o, sizeof o); } } back{o, b};
  LibCall l; enve_sfun_out(&in, &o, &method, &flat);
}
void Sfun::end() { LibCall l; enve_sfun_end(); }
double eps() { return 1.4901161193847656e-08; }
void warm_up() {
  try {
    Tri t; t.v[0] = V3(-1, -1, 0); t.v[1] = V3(1, -1, 0); t.v[2] = V3(0, 2, 0); Mesh m(std::vector<Tri>(1, t)); Shell s(3, 0.3, 9, 0.165, 9, 0.16);
    Pose ps; ps.o = V3(0, 0, 0.28); ps.ex = V3(1, 0, 0); ps.ey = V3(0, 1, 0); ps.ez = V3(0, 0, 1);
    s.setup(m, ps, "geometric"); s.setup(m, ps, "sampling"); s.print();
    std::string f = sim::scratch() + "/warm.rdf"; sim::put_file(f, "[NODES]\n0 0 0 0\n1 1 0 0\n2 0 1 0\n[ELEMENTS]\n0 1 2 1\n");
    { Mesh k(f, ps); k.print(sim::scratch() + "/warm.out"); } 
    try { Mesh k(sim::scratch() + "/none.rdf", ps); } catch (std::exception &) {}
    sim::del_file(f); sim::del_file(sim::scratch() + "/warm.out");
  } catch (...) {}
}
} // namespace lib
