// Facade over the code under test: plain data in, plain data out. Every call runs inside a LibCall scope.
// Only lib.cc includes the library's headers; it uses the public interface only.
#ifndef SIM_LIB_HPP
#define SIM_LIB_HPP
#include "core.hpp"
#include "ref.hpp"
#include <memory>

namespace lib {
using ref::Box; using ref::Out; using ref::Pose; using ref::Tri; using ref::V3; using sim::fmt;

struct Res { bool ok = true; bool oom = false; std::string what; long failed = 0; }; // outcome of a guarded call
// run f with the fail-th allocation (and burst-1 more) failing; fail==0: none
Res guarded(long fail, long burst, std::function<void()> const &f);

struct TriView { long id = 0, bid = 0; V3 v[3]; double mu = 0; V3 n; Box b; }; // bid: the number its box carries
struct Held { std::shared_ptr<void const> p; TriView view() const; }; // a triangle handed out by the library

// a stream in the hands of the user: takes room bytes (-1: all), then refuses; after gap refusals (0: never) it takes more
struct Sink { long room = -1, gap = 0, precision = 6, cap = 1 << 17; bool throws = false, exceptions = false; std::string text; bool failed = false; };
struct MeshImpl;
struct Mesh {
  std::shared_ptr<MeshImpl> p;
  Mesh();
  explicit Mesh(std::vector<Tri> const &t, std::vector<long> const *ids = nullptr);
  Mesh(std::string const &path, Pose const &ps);
  Mesh(std::string const &path, double mu, Pose const &ps);
  void copy(Mesh const &o);
  void clear();
  bool load(std::string const &path, Pose const &ps);
  bool load(std::string const &path, double mu, Pose const &ps);
  void build();
  void print(std::string const &path) const;
  size_t size() const;
  TriView tri(size_t i) const;
  std::vector<TriView> tris() const;    // through vecptrTriangleground()
  Held hold(size_t i) const;
  bool query(Box const &b, std::vector<Held> &out) const;
};
struct FlatImpl;
struct Flat {
  std::shared_ptr<FlatImpl> p;
  Flat(double mu, V3 o, V3 n, int form = 0); // form: of the constructor
  void set(double mu, V3 o, V3 n);
  void assign(Flat const &o); // flat::copy
  void translate(V3 v); void rotate(double a, V3 axis); void transform(Pose const &ps);
  ref::Flat view() const; bool like(Flat const &o) const; void print(Sink &k) const;
};
// a ground triangle and a rib in the hands of the user
struct PartImpl;
struct Part {
  std::shared_ptr<PartImpl> p;
  Part(); Part(long id, double mu, V3 a, V3 b, V3 c, int form = 0);
  void copy(Part const &o); void translate(V3 v); void rotate(double a, V3 axis); void transform(Pose const &ps); void swap(int i, int j);
  TriView view() const; bool like(Part const &o) const; void print(Sink &k) const;
};
Mesh mesh_of(std::vector<Part> const &v); // of copies of the parts
struct RibImpl;
struct RibPart {
  std::shared_ptr<RibImpl> p;
  RibPart(); RibPart(long id, double R, double y, double W, double angle);
  RibPart twin() const; // copy constructed
  void copy(RibPart const &o); void set(double W, double angle); void translate(V3 v);
  std::vector<double> view() const; bool like(RibPart const &o) const;
  bool envelop(std::vector<Part> const &g, Pose const &ps, std::string const &method, Out &o) const; bool envelop(Flat const &g, Pose const &ps, std::string const &method, Out &o) const; bool envelop(Pose const &ps, Out &o) const;
};
struct ShapeImpl;
struct ShapePart {
  std::shared_ptr<ShapeImpl> p;
  ShapePart(); explicit ShapePart(double const v[5]);
  ShapePart twin() const; void copy(ShapePart const &o); void set(int k, double x); // k: Rx, Mx, Ry, My, Ly
  std::vector<double> view() const; std::vector<double> at(double y) const; bool like(ShapePart const &o) const; void print(Sink &k) const; // at: radius, derivative, angle
};
struct ShellImpl;
struct Shell {
  std::shared_ptr<ShellImpl> p;
  Shell(size_t n, double rx, double mx, double ry, double my, double ly);
  void resize(size_t n);
  size_t size() const;
  bool setup(Mesh const &m, Pose const &ps, std::string const &method);
  bool setup(Flat const &f, Pose const &ps, std::string const &method);
  ref::Rib rib(size_t i) const; double rib_angle(size_t i) const; V3 rib_center(size_t i) const;
  std::vector<double> surface() const /* max radius, max width, width */; bool within(double y) const; std::vector<double> surface(double y) const /* radius, derivative, angle */;
  void translate(V3 v); void rotate(double a, V3 axis); void transform(Pose const &ps);
  Pose pose() const;
  std::vector<Pose> poses() const; // as told by translation() with rotation(), linear() and the axes
  bool rigid(double const m[16]) const; // checkTransformation, by columns
  Box bbox() const;
  Out out(size_t i) const; // indexed getters
  Out out() const;         // shell-level getters
  // list forms, called with vectors of the given initial length
  struct Lists { std::vector<V3> p, n, rel; std::vector<double> fr, depth, area, vol; std::vector<Pose> aff; };
  void lists(size_t initial, Lists &l) const;
  Pose affine(size_t i) const; Pose affine() const;
  V3 rel(size_t i) const; V3 rel() const; V3 euler() const;
  std::string print() const; void print(Sink &k) const;
};
struct TreeImpl;
struct Tree {
  std::shared_ptr<TreeImpl> p;
  Tree();
  void build(std::vector<Box> const &b); // ids = positions
  void clear();
  bool empty() const; void print(Sink &k) const;
  void pairs(Tree const &o, std::vector<std::pair<long, long>> &out, int swap = -1) const; // appended; swap -1: not said
  bool collide(Tree const &o, std::function<bool(long, long)> const &f, int swap = -1) const;
};

// entity kinds as the collection sees them
enum Kind { NONE, POINT, LINE, RAY, PLANE, SEGMENT, TRIANGLE, DISK, BALL, NKINDS, DEGENERATED = NKINDS, CLAMPABLE, NONCLAMPABLE, NQUERIES };
extern char const *kind_name[NQUERIES];
struct CollImpl;
struct Coll {
  std::shared_ptr<CollImpl> p;
  Coll();
  void push(Kind k, V3 a, V3 b, V3 c, long tag);      // a new entity; tag identifies it
  void put(size_t i, Kind k, V3 a, V3 b, V3 c, long tag); // a new entity in place i
  Coll copy() const;
  void clear(); void resize(size_t n);
  void translate(V3 v); void carry(size_t i); void rotate(double a, V3 axis); void transform(Pose const &ps); // carry: by a point of member i
  size_t size() const;
  std::vector<long> tags() const;                     // of the members, in order
  bool contain(int q) const; bool are(int q) const; bool is(int q, size_t i) const; long count(int q) const; void remove(int q);
  std::map<std::string, long> counts() const;
  void build();
  bool query(Box const &b, std::vector<long> &tags) const;
  bool query(Coll const &o, std::vector<long> &tags) const; // pairs, flattened
  V3 anchor(size_t i) const;                          // a coordinate of the entity (first vertex / origin / centre)
  Box box_of(size_t i) const;                         // what clamp() gives
};

// an entity (POINT..BALL) or a box (k = BALL + 1) in the hands of the user
enum { BOX = BALL + 1, NENTS };
struct EntImpl;
struct EntPart {
  std::shared_ptr<EntImpl> p;
  EntPart() {}
  static EntPart blank(int k);                            // made by the constructor without arguments
  EntPart(int k, V3 a, V3 b, V3 c, double r, int form);   // by one of the other constructors
  int kind() const;
  EntPart twin(int way) const;                            // copied (0) or moved out of a copy (1)
  void assign(EntPart const &o, bool moving);
  void set(int i, V3 v, int how);                         // the i-th of its points or vectors
  void radius(double r); void number(long id, long pos);  // of a box
  void turn_round(int i, int j);                          // reverse, or swap vertices
  void normalize();
  void translate(V3 v); void rotate(double a, V3 axis); void transform(Pose const &ps);
  std::vector<V3> raw() const; double radius() const; std::pair<long, long> number() const;
  std::vector<double> derived(V3 q) const;                // what it computes, in the order of ent_derived of the reference
  bool inside(V3 q) const; bool degenerated() const; bool takes(int i, int way) const /* triangles: is there an i-th vertex or edge */; bool like(EntPart const &o) const; bool clamp(Box &b, bool six) const; int level() const; std::string type() const;
  bool meets(EntPart const &box) const; bool ordered(bool repair); void wrap_around(V3 a, V3 b, V3 c, bool array); void merge(std::vector<EntPart> const &boxes, bool make); void carry(int i); void grow(V3 q, bool other); double away(V3 q, bool far_end) const; void forget();
};
std::vector<double> constants();                          // the fixed values of the library: unit axes and zeros, then those that are not a number

void print_entity(int k, V3 a, V3 b, V3 c, Sink &s, std::vector<double> &values); // 0-8: point vec3 line ray plane segment triangle disk ball, 9 aabb, 10 affine; values: what its getters give

struct Sfun {
  struct Bus { double ShellAffine[16], ShellRho, ShellFriction, RibsAffine[16 * 20], RibsRho[20], RibsFriction[20], InMesh; };
  static void init(double n, double rx, double mx, double ry, double my, double ly, double h, double mu);
  static void out(double const hub[16], Bus &b, double method, double flat);
  static void end();
};
double eps();
void warm_up(); // touch lazily initialised library and runtime state once
} // namespace lib
#endif
