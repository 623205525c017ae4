// C16: the configured error action applies to every error raised by the library.
//
// A run is a history of settings, queries, correct requests and erroneous ones
// to every component, issued from the main thread and from other threads (one
// at a time).  While the action is "abort", each request is made by a forked
// child: that is the crash, and what survives it is the history up to it.
#include "stateref.hpp"
#include "Mesh_MSTK.hh"
#include "MeshFactory.hh"
#include "Domain.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "LogicalRegion.hh"
#include "LabeledSetRegion.hh"
#include "PolygonRegion.hh"
#include "errors.hh"
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <thread>
#include <unistd.h>
using namespace simm;
using namespace sim;
namespace JG = JaliGeometry;
using Jali::Mesh; using Jali::State;

enum { O_RAISE = 0, O_ABORT, O_SET, O_QUERY, O_DIRECT, O_COMPOSED, O_BOX, O_PLANE, O_POINT, O_LOGICAL, O_LABELED, O_POLYGON, O_MODEL, O_DOMAIN, O_PARENT, O_SETREQ, O_SIMPLE, O_EDGES, O_FACTORY, O_FRAMEWORK, O_STATE, NOPS };
static const char* const names[] = {"set-raise", "set-abort", "set-action", "query", "throw-user-exception", "throw-composed-message", "box-region", "plane-region", "point-region", "logical-region", "labelled-region", "polygon-region",
                                    "geometric-model", "domain", "entity-parent", "set-request", "simple-mesh", "simple-mesh-edges", "mesh-factory", "framework-name", "state"};

static void generate(Plan& p, Rng& r) {
  p.cfg["mseed"] = r.range(1, 100000);
  p.cfg["heap"] = r.below(5);
  int n = gen_len(r, 2, 24);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = r.chance(1, 3) ? (int)r.below(4) : (int)r.range(4, NOPS - 1);
    for (long& a : o.a) a = r.below(100000);
    o.a[4] = r.chance(1, 4) ? 0 : 1;   // 0: a correct request
    o.a[5] = r.chance(1, 3);           // from another thread
    p.ops.push_back(o);
    if (o.kind > O_QUERY && r.chance(1, 10)) { Fault f; f.kind = F_ALLOC; f.where = i; f.k = r.below(20); f.n = 1; p.faults.push_back(f); }
  }
}

struct UserError : public Exceptions::Jali_exception {
  std::string text; long code;
  UserError(const std::string& t, long c) : text(t), code(c) {}
  ~UserError() throw() {}
  const char* what() const throw() { return text.c_str(); }
};
struct ColorRegion : JG::Region {  // a region type of the user's
  ColorRegion(const std::string& n, unsigned id, unsigned dim) : JG::Region(n, id, dim) {}
  bool inside(const Point&) const { return true; }
  JG::Region_type type() const { return JG::Region_type::COLORFUNCTION; }
};
struct World {
  std::unique_ptr<JG::GeometricModel> gm; std::vector<std::unique_ptr<JG::Region> > regs;
  std::shared_ptr<SimMesh> mesh; std::shared_ptr<Jali::Mesh_simple> simple; std::shared_ptr<State> state;
  int dim;
};
static Point pt(int d, double v) { Point p(d); if (d == 1) p.set(v); else if (d == 2) p.set(v, v + 1); else p.set(v, v + 1, v + 2); return p; }

// One request.  bad: it is an error; must: what the message has to contain.
static void request(World& w, const Op& o, bool bad, std::string& must) {
  Rng g(o.a[0] * 5 + 1);
  int d = (int)g.range(2, 3), e = bad ? 5 - d : d;   // right and (if bad) wrong dimension
  std::string nm = "thing" + std::to_string(o.a[1] % 1000);
  if (o.a[2] % 9 == 4) nm += " " + std::string((size_t)g.range(1, 1500), '-') + "<";   // a long text
  switch (o.kind) {
    case O_DIRECT: { must = nm; if (bad) Exceptions::Jali_throw(UserError(nm, o.a[2])); break; }
    case O_COMPOSED: {
      Errors::Message m(g.chance(1, 2) ? "" : "start ");
      must = m.what();
      for (int i = 0, n = (int)(g.chance(1, 8) ? g.range(6, 80) : g.range(1, 5)); i < n; ++i) switch (g.below(4)) {
        case 0: { int v = (int)g.range(-2000000000l, 2000000000l); m << v; must += std::to_string(v); break; }
        case 1: { double v = (double)g.range(-1000000, 1000000) * (g.chance(1, 2) ? 0.25 : 1e20); char b[64]; snprintf(b, sizeof b, "%g", v); m << v; must += b; break; }
        case 2: m << nm; must += nm; break;
        default: m << " and "; must += " and ";
      }
      if (must.empty()) { m << "x"; must = "x"; }
      must += '\0';  // exact
      if (std::string(m.what()) + '\0' != must) failf("message", "a composed message reads \"%s\" instead of \"%s\"", m.what(), must.c_str());
      if (bad) Exceptions::Jali_throw(m);
      break;
    }
    case O_BOX: {
      if (g.chance(1, 3)) { must = nm; JG::BoxRegion b(nm, 1, pt(d, 0), pt(e, 4)); break; }
      JG::BoxRegion b(nm, 1, pt(d, 0), pt(d, 4));
      if (g.chance(1, 2)) { must = nm; b.inside(pt(e, 1)); }
      else { Point lo(d), hi(d); must = "corner"; int which = (int)g.below(2); b.corners(bad && which ? nullptr : &lo, bad && !which ? nullptr : &hi); }
      break;
    }
    case O_PLANE: {
      must = nm;
      if (g.chance(1, 2)) { JG::PlaneRegion r(nm, 1, pt(d, 0), pt(e, 4)); break; }
      JG::PlaneRegion r(nm, 1, pt(d, 0), pt(d, 4)); r.inside(pt(e, 0));
      break;
    }
    case O_POINT: { must = nm; JG::PointRegion r(nm, 1, pt(d, 0)); r.inside(pt(e, 0)); break; }
    case O_LOGICAL: {
      std::vector<std::string> c(2, "all");
      const char* op[] = {"Union", "Intersect", "Subtract", "Complement"};
      bool first = g.chance(1, 2);
      JG::LogicalRegion r(nm, 1, bad && first ? "union " : op[g.below(4)], c);
      if (bad) r.inside(pt(d, 0));
      break;
    }
    case O_LABELED: { JG::LabeledSetRegion r(nm, 1, "CELL", "f", "Exodus II", "1"); if (bad) r.inside(pt(d, 0)); break; }
    case O_POLYGON: {
      std::vector<Point> v;
      for (int i = 0; i < d; ++i) { Point q(d); if (d == 2) q.set(i, 2 * i); else q.set(i == 1, i == 2, 0); v.push_back(q); }
      if (bad && g.chance(1, 3)) { v.clear(); for (int i = 0; i < 3; ++i) { Point q(1); q.set(i); v.push_back(q); } must = "imension"; JG::PolygonRegion r(nm, 1, (unsigned)g.range(1, 3), v); break; }
      JG::PolygonRegion r(nm, 1, bad ? d - 1 : d, v);
      break;
    }
    case O_MODEL: {
      if (g.chance(1, 2)) { JG::GeometricModel m(bad ? (g.chance(1, 2) ? 4u : 1u) : (unsigned)d); must = "dimension"; if (bad) must = "2D"; break; }
      JG::GeometricModel m(bad ? 2u : (unsigned)d); JG::BoxRegion b(nm, 1, pt(bad ? 3 : 2, 0), pt(bad ? 3 : 2, 4)); m.Add_Region(&b);
      if (m.Num_Regions() != 1) failf("lost-region", "an added region is not in the geometric model");
      break;
    }
    case O_DOMAIN: {
      int how = (int)g.below(5);
      if (how == 4) {  // a copy of a domain knows the same models and regions
        JG::Domain x((unsigned)d); JG::GeometricModel m((unsigned)d); JG::BoxRegion b(nm, 1, pt(d, 0), pt(d, 4)); if (bad) { JG::BoxRegion o("o", 2, pt(e, 0), pt(e, 4)); if (e > d) { x.Add_Free_Region(&o); break; } JG::Domain y(x); JG::GeometricModel m2((unsigned)e); y.Add_Geometric_Model(&m2); break; }
        x.Add_Geometric_Model(&m); x.Add_Free_Region(&b); JG::Domain y(x);
        if (y.spatial_dimension() != (unsigned)d || y.Num_Geometric_Models() != 1 || y.Geometric_Model_i(0) != &m || y.Num_Free_Regions() != 1 || y.Free_Region_i(0) != &b) failf("domain", "a copied domain differs from the original");
        break;
      }
      unsigned D = bad && how < 2 ? (g.chance(1, 2) ? 1u : 4u) : (unsigned)d;
      if (how == 0) { JG::Domain x(D); if (x.spatial_dimension() != D) failf("domain", "a domain has another dimension"); break; }
      if (how == 1) { JG::Domain x(D, std::vector<JG::GeometricModelPtr>(), std::vector<JG::RegionPtr>()); if (x.spatial_dimension() != D) failf("domain", "a domain has another dimension"); break; }
      if (how == 2) { JG::Domain x(D); JG::GeometricModel m((unsigned)e); x.Add_Geometric_Model(&m); break; }
      JG::Domain x(bad ? 2u : D); JG::BoxRegion b(nm, 1, pt(bad ? 3 : 2, 0), pt(bad ? 3 : 2, 4)); x.Add_Free_Region(&b);
      break;
    }
    case O_PARENT: { if (bad) { if (g.chance(1, 2)) w.mesh->entity_get_parent(Entity_kind::CELL, 0); else w.simple->entity_get_parent(Entity_kind::NODE, 0); } break; }
    case O_SETREQ: {
      static const struct { const char* region; Entity_kind kind; } good[] = {{"all", Entity_kind::CELL}, {"lcell", Entity_kind::CELL}, {"lface", Entity_kind::FACE}, {"lnode", Entity_kind::NODE}, {"corner", Entity_kind::NODE}, {"both", Entity_kind::CELL}, {"poly", Entity_kind::FACE}, {"poly", Entity_kind::NODE}, {"color", Entity_kind::CELL}};
      static const struct { const char* region; Entity_kind kind; const char* must; } wrong[] = {
          {"nowhere", Entity_kind::CELL, "nowhere"}, {"nowhere", Entity_kind::FACE, "nowhere"}, {"nowhere", Entity_kind::NODE, "nowhere"}, {"lcell", Entity_kind::FACE, ""}, {"lcell", Entity_kind::NODE, ""},
          {"lface", Entity_kind::CELL, ""}, {"lface", Entity_kind::NODE, ""}, {"lnode", Entity_kind::CELL, ""}, {"lnode", Entity_kind::FACE, ""}, {"corner", Entity_kind::FACE, ""},
          {"poly", Entity_kind::CELL, ""}, {"hole", Entity_kind::CELL, "nowhere"}, {"hole", Entity_kind::FACE, "nowhere"}, {"hole", Entity_kind::NODE, "nowhere"}, {"both", Entity_kind::EDGE, ""}, {"both", Entity_kind::SIDE, ""}, {"color", Entity_kind::FACE, ""}, {"color", Entity_kind::NODE, ""}};
      bool rev = g.chance(1, 2);
      if (bad) { auto& x = wrong[g.below(18)]; must = x.must; w.mesh->build_set_from_region(x.region, x.kind, rev); }
      else { auto& x = good[g.below(9)]; if (!w.mesh->build_set_from_region(x.region, x.kind, rev)) failf("no-set", "a correct request for the set of region \"%s\" gave none", x.region); }
      break;
    }
    case O_SIMPLE: {
      MPI_Comm c = (MPI_Comm)mpi_world();
      if (!bad) { Jali::Mesh_simple m(0., 0., 0., 1., 1., 1., 1, 2, 1, c, nullptr, true, false, false, false, false, 0, 0, 0, false, Jali::Partitioner_type::INDEX); break; }
      std::vector<std::string> none;
      switch (g.below(4)) {
        case 0: { Jali::Mesh_simple m(0., 0., 1., 1., 2, 2, c, nullptr, true, false, false, false, false, 0, 0, 0, false, Jali::Partitioner_type::INDEX); break; }
        case 1: { Jali::Mesh_simple m(std::shared_ptr<Mesh>(w.simple), none, Entity_kind::CELL, false, false, true, false, false, false, false, 0, 0, 0, false, Jali::Partitioner_type::INDEX); break; }
        case 2: { Jali::Mesh_simple m(*w.simple, none, Entity_kind::CELL, false, false, true, false, false, false, false, 0, 0, 0, false, Jali::Partitioner_type::INDEX); break; }
        default: { Jali::Mesh_simple m(*w.simple, Jali::Entity_ID_List(1, 0), Entity_kind::CELL, false, false, true, false, false, false, false, 0, 0, 0, false, Jali::Partitioner_type::INDEX); }
      }
      break;
    }
    case O_EDGES: {
      bool sides = g.chance(1, 2); must = bad ? "dge" : "";
      Jali::Mesh_simple m(0., 0., 0., 1., 1., 1., 1, 1, 1, (MPI_Comm)mpi_world(), nullptr, true, bad, bad && sides, false, false, 0, 0, 0, false, Jali::Partitioner_type::INDEX);
      break;
    }
    case O_FACTORY: {
      Jali::MeshFactory f((MPI_Comm)mpi_world());
      bool mstk = g.chance(1, 2);
      f.framework(mstk ? Jali::MSTK : Jali::Simple);
      int form = (int)g.below(6);
      if (!bad) {
        std::shared_ptr<Mesh> m;
        if (form < 2 && mstk) m = f(0., 0., 1., 1., 1, 2); else if (form == 2 && mstk) m = f("mesh3d.exo");
        else if (form == 3) { f.framework(Jali::Simple); m = f(std::vector<double>{0, 1, 2}); } else m = f(0., 0., 0., 1., 1., 1., 1, 2, 1);
        if (!m) failf("no-mesh", "a correct request for a mesh gave none");
        break;
      }
      if (g.chance(1, 3)) {  // a correct request, but the framework fails
        struct Broken { Broken(bool own) { backend().enter = [own](const BackendCall&) { if (own) { Errors::Message m("disk on fire"); throw m; } throw std::runtime_error("disk on fire"); }; } ~Broken() { backend().enter = nullptr; } } broken(g.chance(1, 2));
        must = "disk on fire"; f.framework(Jali::MSTK); std::shared_ptr<Mesh> m;
        switch (form % 4) {
          case 0: m = f(0., 0., 0., 1., 1., 1., 1, 2, 1); break;
          case 1: m = f(0., 0., 1., 1., 1, 2); break;
          case 2: m = f("mesh3d.exo"); break;
          default: { std::vector<std::string> s(1, "all"); m = f(std::shared_ptr<Mesh>(w.mesh), s, Entity_kind::CELL, false, false); }
        }
        break;
      }
      JG::GeometricModel wrong(form == 0 ? 2 : 3);
      switch (form) {
        case 0: { int k = (int)g.below(3); if (k == 0) f.geometric_model(&wrong); f(0., 0., 0., k == 1 ? 0. : 1., 1., 1., 1, k == 2 ? 0 : 1, 1); break; }
        case 1: { int k = (int)g.below(3); if (k == 0) f.geometric_model(&wrong); f(0., 0., 1., k == 1 ? -1. : 1., k == 2 ? -3 : 1, 1); break; }
        case 2: { if (!mstk) must = "import"; f(mstk ? "missing3d.exo" : "mesh3d.exo"); break; }
        case 3: { int k = (int)g.below(3); if (k == 2) { f.framework(Jali::Simple); f.geometric_model(&wrong); } if (k == 0) f(std::vector<double>{1}); else if (k == 1) f(std::vector<double>{1, 1}); else f(std::vector<double>{0, 1}); break; }
        case 4: { if (mstk) { f.framework(g.chance(1, 2) ? Jali::MOAB : Jali::STKMESH); break; } std::vector<std::string> s(1, "all"); f(std::shared_ptr<Mesh>(w.simple), s, Entity_kind::CELL, false, false); break; }
        default: { if (mstk) f(0., 1., 3); else { f.included_entities(std::vector<Entity_kind>{Entity_kind::EDGE}); f(0., 0., 0., 1., 1., 1., 1, 1, 1); } }
      }
      break;
    }
    case O_FRAMEWORK: {
      static const Jali::MeshFramework_t all[] = {Jali::Simple, Jali::MSTK, Jali::MOAB, Jali::STKMESH};
      if (Jali::framework_name(bad ? (Jali::MeshFramework_t)g.range(5, 7) : all[g.below(4)]).empty()) failf("no-name", "a framework has no name");
      break;
    }
    case O_STATE: {
      if (bad && g.chance(1, 2)) { w.state->rem_cells_from_material(0, std::vector<int>(1, 0)); break; }
      std::shared_ptr<Jali::MultiStateVector<double, Mesh> > mv;
      if (!w.state->get<double, Mesh, Jali::MultiStateVector>("mm", std::shared_ptr<Mesh>(w.mesh), Entity_kind::CELL, Entity_type::ALL, &mv)) failf("harness", "no vector");
      int c = bad ? 1 : 0; must = bad ? "material" : "";
      if (g.chance(1, 2)) (*mv)(0, c) = 1.5; else (*mv)(c, 0, Jali::Data_layout::CELL_CENTRIC) = 1.5;
      break;
    }
  }
}

struct Answer { int got = 0; std::string what; bool jali = false; long code = -1; bool nomem = false; };  // 0 returned, 1 raised, 2 something else came
static void raise_mode(World& w, const Plan& p, int i, bool bad, Answer& a, std::string& must) {
  const Op& o = p.ops[i];
  AllocFault af(p, i);
  try { request(w, o, bad, must); a.got = 0; }
  catch (const UserError& e) { AllocPause ap; a.got = 1; a.what = e.what(); a.jali = true; a.code = e.code; }
  catch (const Exceptions::Jali_exception& e) { AllocPause ap; a.got = 1; a.what = e.what(); a.jali = true; }
  catch (const std::exception& e) { AllocPause ap; a.got = 1; a.what = e.what(); }
  catch (...) { a.got = 2; }
  af.end(); a.nomem = af.fired;
}
static void gone(int) { _exit(7); }
static void terminated() { _exit(3); }
struct Unwound { bool off = false; ~Unwound() { if (!off) _exit(4); } };
// 0 returned, 6 died from abort(), others
static int abort_mode(World& w, const Op& o, bool bad) {
  fflush(stdout); fflush(stderr);
  pid_t k = fork();
  if (k == 0) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    signal(SIGABRT, SIG_DFL); signal(SIGTERM, gone); std::set_terminate(terminated); alarm(60);
    std::string must;
    { Unwound u; request(w, o, bad, must); u.off = true; }
    _exit(0);
  }
  if (k < 0) return 99;
  int st = 0;
  while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) return WTERMSIG(st);
  return 100 + WEXITSTATUS(st);
}

static void run(const Plan& p) {
  Quiet q;
  mpi_set_world(1);
  if (Exceptions::exception_behavior() != Exceptions::RAISE) failf("default-action", "the action is not to raise although nobody changed it");
  World w; Rng g(p.get("mseed", 1));
  w.dim = (int)g.range(2, 3);
  w.gm.reset(new JG::GeometricModel(w.dim));
  unsigned id = 1;
  w.regs.emplace_back(new JG::BoxRegion("all", id++, pt(w.dim, -99), pt(w.dim, 99)));
  w.regs.emplace_back(new JG::LabeledSetRegion("lcell", id++, "CELL", "f", "Exodus II", "1"));
  w.regs.emplace_back(new JG::LabeledSetRegion("lface", id++, "FACE", "f", "Exodus II", "2"));
  w.regs.emplace_back(new JG::LabeledSetRegion("lnode", id++, "NODE", "f", "Exodus II", "3"));
  w.regs.emplace_back(new JG::PointRegion("corner", id++, pt(w.dim, 0)));
  w.regs.emplace_back(new JG::LogicalRegion("both", id++, "Union", std::vector<std::string>{"all", "all"}));
  { std::vector<Point> v; for (int i = 0; i < w.dim; ++i) { Point q(w.dim); if (w.dim == 2) q.set(i, 2 * i); else q.set(i == 1, i == 2, 0); v.push_back(q); }
    w.regs.emplace_back(new JG::PolygonRegion("poly", id++, w.dim, v)); }
  w.regs.emplace_back(new JG::LogicalRegion("hole", id++, "Union", std::vector<std::string>{"all", "nowhere"}));
  w.regs.emplace_back(new ColorRegion("color", id++, w.dim));
  GOpt go{w.dim, 2, 2, w.dim == 3 ? 2 : 1, 0, 0, 5};
  SimOpts so; so.faces = true;
  w.mesh = std::make_shared<SimMesh>(make_gmesh(go), IV(), 0, so, (MPI_Comm)mpi_world(), nullptr);
  w.mesh->set_geometric_model(w.gm.get());
  for (auto& r : w.regs) w.gm->Add_Region(r.get());
  w.simple = std::make_shared<Jali::Mesh_simple>(0., 0., 0., 1., 1., 1., 1, 1, 2, (MPI_Comm)mpi_world(), nullptr, true, false, false, false, false, 0, 0, 0, false, Jali::Partitioner_type::INDEX);
  w.state = State::create(w.mesh);
  w.state->add_material("steel", std::vector<int>(1, 0));
  w.state->add<double, Mesh, Jali::MultiStateVector>("mm", w.mesh, Entity_kind::CELL, Entity_type::ALL, 0.0);

  Exceptions::Exception_action action = Exceptions::RAISE;
  int nset = 0, nabort = 0, nraise = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i];
    bool bad = o.a[4] != 0;
    Exceptions::Exception_action seen = action; Answer a; std::string must; int died = 0;
    auto act = [&]() {
      switch (o.kind) {
        case O_RAISE: Exceptions::set_exception_behavior_raise(); break;
        case O_ABORT: Exceptions::set_exception_behavior_abort(); break;
        case O_SET: Exceptions::set_exception_behavior(o.a[0] % 2 ? Exceptions::ABORT : Exceptions::RAISE); break;
        case O_QUERY: break;
        default:
          if (action == Exceptions::RAISE) raise_mode(w, p, (int)i, bad, a, must); else died = abort_mode(w, o, bad);
      }
      seen = Exceptions::exception_behavior();
    };
    if (o.a[5]) { std::thread t(act); t.join(); } else act();
    Exceptions::Exception_action old = action;
    if (o.kind == O_RAISE) action = Exceptions::RAISE; else if (o.kind == O_ABORT) action = Exceptions::ABORT; else if (o.kind == O_SET) action = o.a[0] % 2 ? Exceptions::ABORT : Exceptions::RAISE;
    trace("[%zu] %s%s%s -> %d %d %s", i, names[o.kind], o.kind > O_QUERY && bad ? " (error)" : "", o.a[5] ? " [other thread]" : "", a.got, died, a.what.c_str());
    if (seen != action || Exceptions::exception_behavior() != action) failf("action-lost", "after %s (%s) the action is \"%s\" instead of \"%s\"", names[o.kind], o.a[5] ? "in another thread" : "in the main thread", action == Exceptions::RAISE ? "abort" : "raise", action == Exceptions::RAISE ? "raise" : "abort");
    Hash h; h.add(o.kind); h.add(action); h.add(bad);
    if (o.kind <= O_QUERY) { nset += action != old; sim::log(h.h); continue; }
    if (action == Exceptions::RAISE) {
      h.add(a.got); h.add_s(a.what);
      if (a.nomem) {
        if (a.got == 0 && bad) failf("swallowed", "%s: an error (and memory running out) was not reported", names[o.kind]);
        probe("out of memory while an error is raised");
      } else if (bad) {
        if (a.got == 0) failf("swallowed", "%s: the error was not reported", names[o.kind]);
        if (a.got == 2) failf("foreign", "%s: the error arrived as something which is no exception of the library", names[o.kind]);
        if (a.what.empty() || a.what == "std::exception") failf("no-message", "%s: the error arrived without its message", names[o.kind]);
        if (!a.jali && o.kind != O_STATE) failf("foreign", "%s: the error arrived as something which is no exception of the library: %s", names[o.kind], a.what.c_str());
        bool exact = !must.empty() && must.back() == '\0';
        if (exact ? a.what + '\0' != must : a.what.find(must) == std::string::npos) failf("wrong-message", "%s: the message \"%s\" is not the one of the error (\"%s\")", names[o.kind], a.what.c_str(), must.c_str());
        if (o.kind == O_DIRECT && a.code != o.a[2]) failf("wrong-exception", "the exception thrown is not the one caught");
        ++nraise;
      } else if (a.got != 0) failf("spurious", "%s: a correct request was answered with an error: %s", names[o.kind], a.what.c_str());
    } else {
      h.add(died);
      if (died == 99) continue;   // no process to try it in
      if (bad) {
        if (died == 100) failf("not-aborted", "%s: an error did not end the process", names[o.kind]);
        if (died == 104) failf("not-aborted", "%s: an error was raised instead of ending the process", names[o.kind]);
        if (died == 103) failf("not-aborted", "%s: an error ended the process only because nobody caught it", names[o.kind]);
        if (died != SIGABRT) failf("not-aborted", "%s: an error ended the process in another way than abort() (%d)", names[o.kind], died);
        ++nabort; probe("process aborted by an error");
      } else if (died != 100) failf("spurious", "%s: a correct request ended the process (%d)", names[o.kind], died);
    }
    sim::log(h.h); state_hash(h.h);
  }
  Exceptions::set_exception_behavior_raise();
  if (nset && (nabort || nraise)) note_nontrivial();
  w.state.reset(); w.mesh.reset(); w.simple.reset();
}

namespace sim {
extern const Workload workload = {
    "C16", names, NOPS, generate, run,
    "one case: a history of 2..24 action changes, queries, correct and erroneous requests to the components from several threads, with process crashes where the action is to abort; non-trivial: the action changed and an error was detected",
    "exceptions, errors, all regions, GeometricModel, Domain, Mesh, Mesh_simple, MeshFactory, State, MultiStateVector",
    "MPI (one simulated rank), the MSTK framework (stub behind its constructor signatures)",
    "an aborting process is a forked child whose end is observed|errors of the external mesh framework itself are outside",
    true};
}
