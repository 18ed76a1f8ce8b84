// The objects behind the gateways' commands, given straight to the library, and the handles of the point and plane
// gateways the toolbox builds on. Compiled like the library.
#include "mex_utils.hh"
#include "enve.hh"
#include "rt.hpp"
namespace mex {
using sim::LibCall;
static acme::affine aff(Pose const &p) { acme::affine a; a.matrix() << p.ex.x, p.ey.x, p.ez.x, p.o.x, p.ex.y, p.ey.y, p.ez.y, p.o.y, p.ex.z, p.ey.z, p.ez.z, p.o.z, 0, 0, 0, 1; return a; }
static acme::point pt(V3 v) { return acme::point(v.x, v.y, v.z); }
static acme::vec3 ve(V3 v) { return acme::vec3(v.x, v.y, v.z); }
template <class T> static std::vector<double> l3(T const &v) { return {v.x(), v.y(), v.z()}; }
static std::vector<double> l16(acme::affine const &a) { std::vector<double> r; for (int j = 0; j < 4; ++j) for (int i = 0; i < 4; ++i) r.push_back(a.matrix()(i, j)); return r; }
struct Obj { enve::shell *s = nullptr; enve::ground::mesh *m = nullptr; enve::ground::flat *f = nullptr; enve::triangleground *t = nullptr; ~Obj() { LibCall l; delete s; delete m; delete f; delete t; } };

struct Boxed { mxArray *a; explicit Boxed(uint64_t h) : a(mxCreateNumericMatrix(1, 1, mxUINT64_CLASS, mxREAL)) { *(uint64_t *)mxGetData(a) = h; } ~Boxed() { mxDestroyArray(a); } };
std::vector<double> read_point(uint64_t h) { Boxed b(h); return l3(*utils::mex_convert_mx_to_ptr<acme::point>(b.a)); }
std::vector<double> read_plane(uint64_t h) { Boxed b(h); acme::plane *p = utils::mex_convert_mx_to_ptr<acme::plane>(b.a); std::vector<double> r = l3(p->origin()), n = l3(p->normal()); r.insert(r.end(), n.begin(), n.end()); return r; }
void drop_point(uint64_t h) { Boxed b(h); mxArray const *a = b.a; LibCall l; utils::mex_destroy_object<acme::point>(a); }
void drop_plane(uint64_t h) { Boxed b(h); mxArray const *a = b.a; LibCall l; utils::mex_destroy_object<acme::plane>(a); }

ObjP make_shell(long n, double rx, double mx, double ry, double my, double ly) { ObjP o = std::make_shared<Obj>(); LibCall l; o->s = new enve::shell(size_t(n), rx, mx, ry, my, ly); return o; }
ObjP make_mesh() { ObjP o = std::make_shared<Obj>(); LibCall l; o->m = new enve::ground::mesh(); return o; }
ObjP make_mesh(std::string const &p, Pose const *ps, double const *mu) {
  ObjP o = make_mesh(); LibCall l; if (ps && mu) o->m->load(p, *mu, aff(*ps)); else if (ps) o->m->load(p, aff(*ps)); else if (mu) o->m->load(p, *mu); else o->m->load(p); return o;
}
ObjP make_flat() { ObjP o = std::make_shared<Obj>(); LibCall l; o->f = new enve::ground::flat(); return o; }
ObjP make_flat(double mu, V3 a, V3 n) { ObjP o = std::make_shared<Obj>(); LibCall l; o->f = new enve::ground::flat(mu, a.x, a.y, a.z, n.x, n.y, n.z); return o; }
ObjP make_tg() { ObjP o = std::make_shared<Obj>(); double q = acme::QUIET_NAN; LibCall l; o->t = new enve::triangleground(0, 0.0, acme::point(q, q, q), acme::point(q, q, q), acme::point(q, q, q)); return o; }
ObjP make_tg(long id, double mu, V3 a, V3 b, V3 c) { ObjP o = std::make_shared<Obj>(); LibCall l; o->t = new enve::triangleground(acme::integer(id), mu, pt(a), pt(b), pt(c)); return o; }
long size_of(Obj const &o) { LibCall l; return o.s ? long(o.s->size()) : o.m ? long(o.m->size()) : 0; }
std::vector<double> ask(Obj const &o, std::string const &c, long i, double y, Pose const *ps, Obj const *other) {
  LibCall l; size_t k = size_t(i - 1); acme::point p; acme::vec3 v; acme::affine a; acme::real x = 0;
  if (o.s) {
    enve::shell const &s = *o.s; bool rib = c.size() > 3 && c.compare(c.size() - 3, 3, "Rib") == 0; std::string b = c.size() > 3 ? c.substr(0, c.size() - 3) : c;
    if (c == "size") return {double(s.size())};
    if (c == "surfaceMaxRadius") return {s.surfaceMaxRadius()};
    if (c == "surfaceMaxWidth") return {s.surfaceMaxWidth()};
    if (c == "surfaceWidth") return {s.surfaceWidth()};
    if (c == "checkWidthBound") return {double(s.checkWidthBound(y))};
    if (c == "surfaceRadius") return {s.surfaceRadius(y)};
    if (c == "surfaceDerivative") return {s.surfaceDerivative(y)};
    if (c == "surfaceAngle") return {s.surfaceAngle(y)};
    if (c == "ribRadius") return {s.ribRadius(k)};
    if (c == "ribCenter") return l3(s.ribCenter(k));
    if (c == "ribWidth") return {s.ribWidth(k)};
    if (c == "ribAngle") return {s.ribAngle(k)};
    if (c == "translation") return l3(acme::vec3(s.translation()));
    if (c == "rotation") { acme::mat3 m(s.rotation()); std::vector<double> r; for (int j = 0; j < 3; ++j) for (int q = 0; q < 3; ++q) r.push_back(m(q, j)); return r; }
    if (c == "transformation") return l16(s.transformation());
    if (c == "checkTransformation") return {double(s.checkTransformation(aff(*ps)))};
    if (c == "x") return l3(acme::vec3(s.x()));
    if (c == "y") return l3(acme::vec3(s.y()));
    if (c == "z") return l3(acme::vec3(s.z()));
    if (c == "eulerAngles") { s.eulerAngles(v); return l3(v); }
    if (b == "contactPoint") { if (rib) s.contactPoint(k, p); else s.contactPoint(p); return l3(p); }
    if (b == "contactNormal") { if (rib) s.contactNormal(k, v); else s.contactNormal(v); return l3(v); }
    if (b == "contactDepth") { if (rib) s.contactDepth(k, x); else s.contactDepth(x); return {x}; }
    if (b == "contactFriction") { if (rib) s.contactFriction(k, x); else s.contactFriction(x); return {x}; }
    if (b == "contactArea") { if (rib) s.contactArea(k, x); else s.contactArea(x); return {x}; }
    if (b == "contactVolume") { if (rib) s.contactVolume(k, x); else s.contactVolume(x); return {x}; }
    if (b == "contactPointAffine") { if (rib) s.contactPointAffine(k, a); else s.contactPointAffine(a); return l16(a); }
    if (b == "relativeAngles") { if (rib) s.relativeAngles(k, v); else s.relativeAngles(v); return l3(v); }
  }
  if (o.m) {
    if (c == "size") return {double(o.m->size())};
    if (c == "getTrianglegroundVertices") { std::vector<double> r; enve::triangleground::ptr t = o.m->ptrTriangleground(k); for (size_t j = 0; j < 3; ++j) { std::vector<double> w = l3(t->vertex(j)); r.insert(r.end(), w.begin(), w.end()); } return r; }
  }
  if (o.f) {
    enve::ground::flat const &f = *o.f;
    if (c == "getOrigin") return l3(f.origin());
    if (c == "getNormal") return l3(acme::vec3(f.normal()));
    if (c == "getPlane") { std::vector<double> r = l3(f.layingPlane().origin()), n = l3(f.layingPlane().normal()); r.insert(r.end(), n.begin(), n.end()); return r; }
    if (c == "getFriction") return {f.friction()};
    if (c == "isDegenerated") return {double(f.isDegenerated())};
    if (c == "isApprox") return {double(f.isApprox(*other->f))};
  }
  if (o.t) {
    if (c == "getID") return {double(o.t->id())};
    if (c == "getFriction") return {o.t->friction()};
    if (c == "getVertex1" || c == "getVertex2" || c == "getVertex3") return l3(static_cast<enve::triangleground const &>(*o.t).vertex(size_t(c[9] - '1')));
    if (c == "normal") return l3(acme::vec3(o.t->normal()));
  }
  throw std::logic_error("the session asks for what there is not: " + c);
}
bool setup(Obj &o, Obj const &g, Pose const &ps, std::string const &method) { acme::affine a = aff(ps); std::string m(method); LibCall l; return g.m ? o.s->setup(*g.m, a, m) : o.s->setup(*g.f, a, m); }
void resize(Obj &o, long n) { LibCall l; o.s->resize(size_t(n)); }
void translate(Obj &o, V3 v) { LibCall l; o.s->translate(ve(v)); }
void rotate(Obj &o, double a, V3 x) { LibCall l; o.s->rotate(a, ve(x)); }
void transform(Obj &o, Pose const &p) { LibCall l; o.s->transform(aff(p)); }
Pose pose(Obj const &o) { LibCall l; auto const &m = o.s->transformation().matrix(); Pose p; p.o = V3(m(0, 3), m(1, 3), m(2, 3)); p.ex = V3(m(0, 0), m(1, 0), m(2, 0)); p.ey = V3(m(0, 1), m(1, 1), m(2, 1)); p.ez = V3(m(0, 2), m(1, 2), m(2, 2)); return p; }
void copy(Obj &o, Obj const &p) { LibCall l; if (o.m) o.m->copy(*p.m); else if (o.f) o.f->copy(*p.f); else o.t->copy(*p.t); }
void load(Obj &o, std::string const &p, double const *mu) { LibCall l; if (mu) o.m->load(p, *mu); else o.m->load(p); }
ObjP triangle(Obj const &o, long i) { LibCall l; enve::triangleground::ptr t = o.m->ptrTriangleground(size_t(i - 1)); return make_tg(t->id(), t->friction(), V3(t->vertex(0).x(), t->vertex(0).y(), t->vertex(0).z()), V3(t->vertex(1).x(), t->vertex(1).y(), t->vertex(1).z()), V3(t->vertex(2).x(), t->vertex(2).y(), t->vertex(2).z())); }
void set_origin(Obj &o, V3 v) { LibCall l; o.f->origin() = pt(v); }
void set_normal(Obj &o, V3 v) { LibCall l; o.f->layingPlane().normal() = ve(v); }
void set_friction(Obj &o, double m) { LibCall l; o.f->friction() = m; }
void set_plane(Obj &o, std::vector<double> const &p) { LibCall l; o.f->layingPlane() = acme::plane(p[0], p[1], p[2], p[3], p[4], p[5]); }
}
