// The simulated world: meshes, planes and shells in numbered slots, driven by a trace of operations.
#ifndef SIM_WORLD_HPP
#define SIM_WORLD_HPP
#include "lib.hpp"

namespace sim {
using lib::Res; using ref::Box; using ref::Out; using ref::Pose; using ref::Shape; using ref::Tri; using ref::V3;

// ---- vocabulary shared by generator and executor
Pose make_pose(V3 o, double yaw, double camber, double pitch);
Pose pose_of(Op const &op);                               // keys x y z yaw cam pit
void put_pose(Op &op, V3 o, double yaw, double cam, double pit);
std::vector<Tri> make_ground(Op const &op);               // deterministic from the operation's keys
void reorder(std::vector<Tri> &t, u64 perm, u64 wind);    // record order / vertex order
std::string rdf_text(std::vector<Tri> const &t, u64 style, bool share);
std::string obj_text(std::vector<Tri> const &t, u64 style, bool share);
std::string num(double v);
Shape shape_of(Op const &op);

enum Check : unsigned { CK_GEO = 1, CK_SAMP = 2, CK_FLAT = 4, CK_AGG = 8, CK_TWIN = 16, CK_FIN = 32, CK_NOC = 64 };

struct MeshSlot { lib::Mesh m; std::vector<Tri> t; };
struct FlatSlot { lib::Flat f; ref::Flat r; };
struct ShellSlot { lib::Shell s; Shape sh; size_t n; bool stepped = false, last = false; };

struct World {
  Ctx &c; unsigned checks; std::string tag; // tag: prefix of violation classes
  std::map<long, MeshSlot> meshes; std::map<long, FlatSlot> flats; std::map<long, ShellSlot> shells;
  u64 steps = 0, contacts = 0, compared = 0, ambiguous = 0;
  long file_no = 0;
  World(Ctx &cx, unsigned ck, std::string const &t) : c(cx), checks(ck), tag(t) {}
  bool apply(Op const &op); // false: not a world operation
  void finish();
  // pieces
  void do_mesh(Op const &op); void do_flat(Op const &op); void do_shell(Op const &op); void do_resize(Op const &op); void do_step(Op const &op);
  lib::Mesh build_mesh(std::vector<Tri> const &t, Op const &op);
  void check_mesh(lib::Mesh const &m, std::vector<Tri> const &t, std::string const &cls);
  std::string path(std::string const &ext);
  [[noreturn]] void bad(std::string const &cls, std::string const &msg) { violate(tag + "/" + cls, msg); }
};

// everything the public interface shows about a shell after a step
std::vector<double> snapshot(lib::Shell const &s, bool verdict, bool with_print = true);
bool same_bits(std::vector<double> const &a, std::vector<double> const &b, size_t *where = nullptr);
std::string where_in_snapshot(size_t i, size_t n);
void log_values(Ctx &c, std::vector<double> const &v);

// reference result of one rib; ground given by mesh triangles or plane
struct Want { Out o; bool skip = false; };
Want want_mesh(std::vector<Tri> const &t, Pose const &ps, ref::Rib const &r, std::vector<ref::Rib> const &ribs, bool geometric, Box const &reported);
Want want_flat(ref::Flat const &f, Pose const &ps, ref::Rib const &r, bool geometric);
// "" or a description of the difference
std::string compare(Out const &got, Out const &want, ref::Rib const &r, Pose const &ps, std::string &what);
Box ribs_box(std::vector<ref::Rib> const &ribs, Pose const &ps);
void check_aggregates(Ctx &c, lib::Shell const &s, Pose const &wheel, std::string const &tag, u64 salt);
void check_finite(Ctx &c, lib::Shell const &s, Pose const &wheel, double mulo, double muhi, size_t ntri, std::string const &tag, bool flat);

// ---- generator pieces
struct GenOpt {
  bool thorough = false;
  bool mesh = true, flat = false;
  double p_sampling = 0.3;   // chance that a step uses the sampling model
  double p_flat = 0.2;       // chance that a step uses a plane
  double p_fail = 0.05;      // chance of an injected allocation failure on a step
  double p_bad = 0.03;       // chance of an invalid method before a step
  double p_resize = 0.06, p_newground = 0.05, p_move = 0.05;
  double p_align = 0;        // chance of exact alignments
  bool degenerate = true;
  bool const_mu = false;     // one friction per mesh (so that OBJ can carry it)
  int max_ops = 24;
  double p_crawl = 0.002;    // chance that a step is preceded by many unobserved ones close to it
};
std::vector<long> odd_ids(u64 seed, size_t n);
void gen_drive(Rng &r, GenOpt const &o, Trace &t);
Op gen_mesh(Rng &r, GenOpt const &o, long slot, double R, V3 around);
Op gen_shell(Rng &r, long slot, bool extreme);
Op sibling(Rng &r, Op const &shell, long slot); // the same but for some of its parameters
Op gen_flat(Rng &r, long slot, V3 around);
} // namespace sim
#endif
