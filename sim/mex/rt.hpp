// What the simulated MATLAB workspace needs of the gateways and the stand-in runtime.
#ifndef SIM_MEX_RT_HPP
#define SIM_MEX_RT_HPP
#include "../core.hpp"
#include "../ref.hpp"
namespace mex {
using ref::Pose; using ref::V3;
enum Gw { SHELL, MESH, FLAT, TG, NGW };
extern char const *gw_name[NGW];
// a workspace value. kind: 'r' real array of a class, 's' text, 'h' handle (to an object of the session), 'l' logical, 'c' complex
struct Val { char kind = 'r'; std::string cls = "double"; std::vector<size_t> dim{0, 0}; std::vector<double> d; std::string s; uint64_t h = 0; };
struct Reply { bool ok = false; std::string msg; bool set = false; Val out; long created = 0; };
// one call of a gateway; mxfail: the mxfail-th array the gateway asks for cannot be had
Reply call(Gw g, int nlhs, std::vector<Val> const &args, long mxfail);
long locks();        // lock count of the gateways
// on behalf of the point and plane gateways of the toolbox that enve builds on
std::vector<double> read_point(uint64_t h); std::vector<double> read_plane(uint64_t h);
void drop_point(uint64_t h); void drop_plane(uint64_t h);
// the object behind the same command given straight to the library
struct Obj; typedef std::shared_ptr<Obj> ObjP;
ObjP make_shell(long n, double rx, double mx, double ry, double my, double ly); ObjP make_mesh(); ObjP make_mesh(std::string const &p, Pose const *ps, double const *mu); ObjP make_flat(); ObjP make_flat(double mu, V3 o, V3 n); ObjP make_tg(); ObjP make_tg(long id, double mu, V3 a, V3 b, V3 c);
long size_of(Obj const &o);
std::vector<double> ask(Obj const &o, std::string const &cmd, long i, double y, Pose const *ps, Obj const *other);
bool setup(Obj &o, Obj const &g, Pose const &ps, std::string const &method);
void resize(Obj &o, long n); void translate(Obj &o, V3 v); void rotate(Obj &o, double a, V3 x); void transform(Obj &o, Pose const &p); Pose pose(Obj const &o);
void copy(Obj &o, Obj const &p); void load(Obj &o, std::string const &p, double const *mu); ObjP triangle(Obj const &o, long i);
void set_origin(Obj &o, V3 v); void set_normal(Obj &o, V3 v); void set_friction(Obj &o, double m); void set_plane(Obj &o, std::vector<double> const &p);
}
#endif
