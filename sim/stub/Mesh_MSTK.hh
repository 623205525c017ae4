// Stub of the external mesh framework, behind the constructor signatures that
// the mesh factory uses.  Records what it was asked for, builds a SimMesh and
// fails where the simulation says so.
#ifndef SIM_STUB_MESH_MSTK_HH_
#define SIM_STUB_MESH_MSTK_HH_
#include <functional>
#include <stdexcept>
#include "simmesh.hpp"

namespace simm {
enum { FORM_BOX3 = 0, FORM_BOX2, FORM_LINE, FORM_INTERVAL, FORM_FILE, FORM_EXTRACT, NFORMS };
struct BackendCall {
  int form = 0;
  double b[6] = {0, 0, 0, 0, 0, 0};
  long n[3] = {0, 0, 0};
  std::string file;
  const Jali::Mesh* in = nullptr;
  std::vector<std::string> sets;
  Entity_kind kind = Entity_kind::CELL;
  bool flatten = false, extrude = false, contiguous = false;
  SimOpts o;
  JaliGeometry::GeometricModelPtr gm = nullptr;
  MPI_Comm comm = MPI_COMM_NULL;
};
struct Backend {
  std::function<void(const BackendCall&)> enter, leave;  // may stall or throw
};
inline Backend& backend() { static Backend b; return b; }

inline GMesh backend_gmesh(const BackendCall& c) {
  sim::AllocPause ap;
  if (c.form == FORM_BOX3 || c.form == FORM_BOX2) {
    int d = c.form == FORM_BOX3 ? 3 : 2;
    GOpt o{d, (int)c.n[0], (int)c.n[1], (int)c.n[2], 0, 0, 5};
    GMesh g = make_gmesh(o);
    double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
    for (auto& x : g.X) for (int i = 0; i < d; ++i) { lo[i] = std::min(lo[i], x[i]); hi[i] = std::max(hi[i], x[i]); }
    for (auto& x : g.X) for (int i = 0; i < d; ++i) x[i] = c.b[i] + (x[i] - lo[i]) / (hi[i] - lo[i]) * (c.b[i + d] - c.b[i]);
    return g;
  }
  int d = 3;
  if (c.form == FORM_FILE) d = c.file.find("2d") != std::string::npos ? 2 : 3;
  else { d = (int)c.in->space_dimension() - (c.flatten ? 1 : 0); if (d < 2) d = 2; }
  GOpt o{d, 2, 2, d == 3 ? 2 : 1, 0, 0, 5};
  return make_gmesh(o);
}
inline BackendCall entered(BackendCall c) {
  if (backend().enter) backend().enter(c);
  if (c.form == FORM_FILE && c.file.find("missing") != std::string::npos) { Errors::Message m("cannot open mesh file"); throw m; }
  return c;
}
inline IV backend_part(const GMesh& g) { sim::AllocPause ap; sim::Rng r(17); return make_partition(g, sim::mpi_size(), r); }
}  // namespace simm

namespace Jali {
class Mesh_MSTK : public simm::SimMesh {
  struct Prep { simm::BackendCall c; simm::GMesh g; simm::IV part; explicit Prep(const simm::BackendCall& k) : c(simm::entered(k)), g(simm::backend_gmesh(c)), part(simm::backend_part(g)) {} };
  static simm::SimOpts opts(bool f, bool e, bool s, bool w, bool c, int nt, int halo, int gl, bool bg, Partitioner_type p, JaliGeometry::Geom_type g) {
    simm::SimOpts o; o.faces = f; o.edges = e; o.sides = s; o.wedges = w; o.corners = c; o.ntiles = nt; o.halo = halo; o.ghost_layers = gl; o.bghost = bg; o.part = p; o.geom = g;
    return o;
  }
  explicit Mesh_MSTK(const Prep& p) : simm::SimMesh(p.g, p.part, sim::mpi_rank(), p.c.o, p.c.comm, p.c.gm), call_(p.c) {
    if (simm::backend().leave) simm::backend().leave(call_);
  }
  static simm::BackendCall file_call(const std::string& f) { simm::BackendCall c; c.form = simm::FORM_FILE; c.file = f; return c; }
  static simm::BackendCall box3(double x0, double y0, double z0, double x1, double y1, double z1, long nx, long ny, long nz) {
    simm::BackendCall c; c.form = simm::FORM_BOX3; double b[6] = {x0, y0, z0, x1, y1, z1}; for (int i = 0; i < 6; ++i) c.b[i] = b[i]; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; return c;
  }
  static simm::BackendCall box2(double x0, double y0, double x1, double y1, long nx, long ny) {
    simm::BackendCall c; c.form = simm::FORM_BOX2; double b[4] = {x0, y0, x1, y1}; for (int i = 0; i < 4; ++i) c.b[i] = b[i]; c.n[0] = nx; c.n[1] = ny; c.n[2] = 1; return c;
  }
  static simm::BackendCall extract(const Mesh& in, const std::vector<std::string>& s, Entity_kind k, bool f, bool e) {
    simm::BackendCall c; c.form = simm::FORM_EXTRACT; c.in = &in; c.sets = s; c.kind = k; c.flatten = f; c.extrude = e; c.gm = in.geometric_model(); c.comm = in.get_comm(); return c;
  }
  static Prep with(simm::BackendCall c, const simm::SimOpts& o, bool contiguous) { c.o = o; c.contiguous = contiguous; return Prep(c); }
  static simm::BackendCall env(simm::BackendCall c, MPI_Comm m, JaliGeometry::GeometricModelPtr gm) { c.comm = m; c.gm = gm; return c; }
  typedef JaliGeometry::GeometricModelPtr GM;
  typedef JaliGeometry::Geom_type GT;
  typedef Partitioner_type PT;

 public:
  Mesh_MSTK(const std::string filename, const MPI_Comm& m, const GM& gm = (GM)NULL, const bool f = true, const bool e = false, const bool s = false, const bool w = false, const bool c = false,
            const int nt = 0, const int halo = 0, const int gl = 1, const bool bg = false, const PT p = PT::METIS, const bool contiguous = false, const GT g = GT::CARTESIAN)
      : Mesh_MSTK(with(env(file_call(filename), m, gm), opts(f, e, s, w, c, nt, halo, gl, bg, p, g), contiguous)) {}
  Mesh_MSTK(const double x0, const double y0, const double z0, const double x1, const double y1, const double z1, const unsigned nx, const unsigned ny, const unsigned nz,
            const MPI_Comm& m, const GM& gm = (GM)NULL, const bool f = true, const bool e = false, const bool s = false, const bool w = false, const bool c = false,
            const int nt = 0, const int halo = 0, const int gl = 1, const bool bg = false, const PT p = PT::METIS, const bool contiguous = false)
      : Mesh_MSTK(with(env(box3(x0, y0, z0, x1, y1, z1, nx, ny, nz), m, gm), opts(f, e, s, w, c, nt, halo, gl, bg, p, GT::CARTESIAN), contiguous)) {}
  Mesh_MSTK(const double x0, const double y0, const double x1, const double y1, const int nx, const int ny,
            const MPI_Comm& m, const GM& gm = (GM)NULL, const bool f = true, const bool e = false, const bool s = false, const bool w = false, const bool c = false,
            const int nt = 0, const int halo = 0, const int gl = 1, const bool bg = false, const PT p = PT::METIS, const bool contiguous = false, const GT g = GT::CARTESIAN)
      : Mesh_MSTK(with(env(box2(x0, y0, x1, y1, nx, ny), m, gm), opts(f, e, s, w, c, nt, halo, gl, bg, p, g), contiguous)) {}
  Mesh_MSTK(const Mesh& in, const std::vector<std::string>& sets, const Entity_kind kind, const bool flatten = false, const bool extrude = false,
            const bool f = true, const bool e = false, const bool s = false, const bool w = false, const bool c = false,
            const int nt = 0, const int halo = 0, const int gl = 1, const bool bg = false, const PT p = PT::METIS, const bool contiguous = false, const GT g = GT::CARTESIAN)
      : Mesh_MSTK(with(extract(in, sets, kind, flatten, extrude), opts(f, e, s, w, c, nt, halo, gl, bg, p, g), contiguous)) {}
  Mesh_MSTK(const std::shared_ptr<Mesh> in, const std::vector<std::string>& sets, const Entity_kind kind, const bool flatten = false, const bool extrude = false,
            const bool f = true, const bool e = false, const bool s = false, const bool w = false, const bool c = false,
            const int nt = 0, const int halo = 0, const int gl = 1, const bool bg = false, const PT p = PT::METIS, const bool contiguous = false, const GT g = GT::CARTESIAN)
      : Mesh_MSTK(*in, sets, kind, flatten, extrude, f, e, s, w, c, nt, halo, gl, bg, p, contiguous, g) {}

  const simm::BackendCall& call() const { return call_; }

 private:
  simm::BackendCall call_;
};
}  // namespace Jali
#endif
