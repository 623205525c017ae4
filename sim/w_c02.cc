// C02: a created mesh honours exactly the factory options in force.
#include "meshcfg.hpp"
#include "Mesh_MSTK.hh"
#include "MeshFactory.hh"
#include "BoxRegion.hh"
using namespace simm;
using namespace sim;
#ifndef SIM_VARIANT
#define SIM_VARIANT 0
#endif
#ifdef HAVE_MSTK_MESH
static const bool have_backend = true;
#else
static const bool have_backend = false;
#endif
enum { O_FRAMEWORK = 0, O_PARTITIONER, O_GEOM, O_GHOST, O_BGHOST, O_TILES, O_HALO, O_CONTIG, O_INCLUDE, O_INCLUDE1, O_EXCLUDE, O_MODEL, O_RESET, O_CREATE, O_DROP, NOPS };
static const char* const names[] = {"framework", "partitioner", "geometry", "ghost-layers", "boundary-ghosts", "tiles", "tile-halo", "contiguous-ids", "include-list", "include", "exclude-list", "geometric-model", "reset", "create", "drop-mesh"};

static void generate(Plan& p, Rng& r) {
  p.cfg["variant"] = SIM_VARIANT;
  p.cfg["nranks"] = r.chance(2, 3) ? 1 : r.range(2, 3);
  p.cfg["heap"] = r.below(5);
  int n = (int)r.range(3, 30);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = r.chance(1, 4) ? O_CREATE : (int)r.below(NOPS);
    if (o.kind == O_FRAMEWORK && SIM_VARIANT == 0 && r.chance(1, 2)) o.kind = O_INCLUDE;
    if (SIM_VARIANT == 1 && o.kind != O_CREATE && r.chance(1, 4)) o.kind = O_FRAMEWORK;
    for (long& a : o.a) a = r.below(100000);
    o.a[1] = r.below(NFORMS);
    p.ops.push_back(o);
    if (o.kind == O_CREATE && r.chance(1, 6)) {
      Fault f; f.where = i; f.n = 1; f.k = r.below(60);
      f.kind = p.cfg["nranks"] == 1 ? F_ALLOC : F_BACKEND;
      p.faults.push_back(f);
    }
  }
}

struct Peek : public Jali::Mesh {  // what the mesh was told, as a framework sees it
  static SimMesh::Seen seen(const Jali::Mesh& m) {
    return SimMesh::Seen{m.*(&Peek::faces_requested), m.*(&Peek::edges_requested), m.*(&Peek::sides_requested), m.*(&Peek::wedges_requested), m.*(&Peek::corners_requested),
                         m.*(&Peek::num_tiles_ini_), m.*(&Peek::num_ghost_layers_tile_), m.*(&Peek::num_ghost_layers_distmesh_), m.*(&Peek::boundary_ghosts_requested_), m.*(&Peek::partitioner_pref_)};
  }
};
struct Opt {
  Jali::MeshFramework_t fw; Jali::Partitioner_type part; JaliGeometry::Geom_type geom; int gl, ntiles, halo; bool bghost, contig, edges, faces, cells, sides, wedges, corners; JaliGeometry::GeometricModelPtr gm;
};
static Opt defaults() {
  Jali::MeshFactory f((MPI_Comm)mpi_world());
  Opt o; o.fw = f.framework(); o.part = f.partitioner(); o.geom = JaliGeometry::Geom_type::CARTESIAN; o.gl = 1; o.ntiles = 0; o.halo = 0; o.bghost = o.contig = false;
  o.faces = o.cells = true; o.edges = o.sides = o.wedges = o.corners = false; o.gm = nullptr;
  return o;
}
static void check_getters(const Jali::MeshFactory& f, const Opt& o, const char* when) {
#define G(c, n) if (!(c)) failf("option", "%s: reading the option \"%s\" back gives another value than the one in force", when, n)
  G(f.framework() == o.fw, "framework"); G(f.partitioner() == o.part, "partitioner"); G(f.mesh_geometry() == o.geom, "mesh_geometry");
  G(f.num_ghost_layers_distmesh() == o.gl, "num_ghost_layers_distmesh"); G(f.boundary_ghosts_requested() == o.bghost, "boundary_ghosts_requested");
  G(f.num_tiles() == o.ntiles, "num_tiles"); G(f.num_ghost_layers_tile() == o.halo, "num_ghost_layers_tile"); G(f.geometric_model() == o.gm, "geometric_model");
  std::vector<Entity_kind> l = f.included_entities();
  std::set<int> have, want; for (auto k : l) have.insert((int)k);
  want.insert((int)Entity_kind::NODE);
  if (o.edges) want.insert((int)Entity_kind::EDGE); if (o.faces) want.insert((int)Entity_kind::FACE); if (o.sides) want.insert((int)Entity_kind::SIDE);
  if (o.wedges) want.insert((int)Entity_kind::WEDGE); if (o.corners) want.insert((int)Entity_kind::CORNER); if (o.cells) want.insert((int)Entity_kind::CELL);
  G(have == want && l.size() == want.size(), "included_entities");
#undef G
}

struct Made { std::shared_ptr<Jali::Mesh> mesh; Opt o; int form; double b[6]; long n[3]; std::vector<double> x; std::string file; const Jali::Mesh* in; std::vector<std::string> sets; Entity_kind kind; bool flatten, extrude; };
static bool near(double a, double b, double scale) { return std::fabs(a - b) <= 1e-11 * scale; }

static void check_mesh(const Made& m, int nr, const char* when) {
  const Jali::Mesh& M = *m.mesh; const Opt& o = m.o;
#define W(c, ...) if (!(c)) { char b_[300]; snprintf(b_, 300, __VA_ARGS__); failf("mesh-option", "%s: mesh made by \"%s\": %s", when, (const char* []){"3D box", "2D box", "1D nodes", "1D interval", "file", "extraction"}[m.form], b_); }
  int D = m.form == FORM_BOX3 ? 3 : m.form == FORM_BOX2 ? 2 : m.form <= FORM_INTERVAL ? 1 : 0;
  if (D) W((int)M.space_dimension() == D, "space dimension is %u instead of %d", M.space_dimension(), D);
  bool corners = o.corners, wedges = o.wedges || corners, sides = o.sides || wedges, faces = o.faces || sides, edges = o.edges || sides;
  JaliGeometry::Geom_type geom = m.form == FORM_BOX3 ? JaliGeometry::Geom_type::CARTESIAN : o.geom;
  W(M.geom_type() == geom, "geometry type is %d instead of %d", (int)M.geom_type(), (int)geom);
  JaliGeometry::GeometricModelPtr gm = m.form == FORM_EXTRACT ? m.in->geometric_model() : o.gm;
  W(M.geometric_model() == gm, "another geometric model");
  W(M.get_comm() == (MPI_Comm)mpi_world(), "another communicator");
  W(M.num_tiles() == o.ntiles, "%d tiles instead of %d", M.num_tiles(), o.ntiles);
  SimMesh::Seen s = Peek::seen(M);
  W(s.faces == faces && s.edges == edges && s.sides == sides && s.wedges == wedges && s.corners == corners, "entity kinds requested: faces %d edges %d sides %d wedges %d corners %d, expected %d %d %d %d %d",
    s.faces, s.edges, s.sides, s.wedges, s.corners, faces, edges, sides, wedges, corners);
  W(s.ntiles == o.ntiles && s.halo == o.halo && s.ghost_layers == o.gl && s.bghost == o.bghost && s.part == o.part, "tiles %d halo %d ghost layers %d boundary ghosts %d partitioner %d, expected %d %d %d %d %d",
    s.ntiles, s.halo, s.ghost_layers, s.bghost, (int)s.part, o.ntiles, o.halo, o.gl, o.bghost, (int)o.part);
  W((M.num_sides<Entity_type::ALL>() > 0) == (sides && M.num_cells<Entity_type::ALL>() > 0), "sides %s", sides ? "missing" : "present though not requested");
  W((M.num_wedges<Entity_type::ALL>() > 0) == (wedges && M.num_cells<Entity_type::ALL>() > 0), "wedges %s", wedges ? "missing" : "present though not requested");
  W((M.num_corners<Entity_type::ALL>() > 0) == (corners && M.num_cells<Entity_type::ALL>() > 0), "corners %s", corners ? "missing" : "present though not requested");
  int nt = 0; for (auto const& t : m.mesh->tiles()) { nt++; if (o.halo == 0) W(t->num_cells<Entity_type::PARALLEL_GHOST>() == 0, "a tile has a halo though none was asked for"); }
  Hash h; h.add(m.form); h.add(sides + 2 * wedges + 4 * corners + 8 * edges); h.add(o.ntiles); h.add(o.halo); h.add((int)geom); h.add((int)o.part);
  const Jali::Mesh_simple* ms = dynamic_cast<const Jali::Mesh_simple*>(&M);
  W((ms != nullptr) == (o.fw == Jali::Simple), "made by another framework than the one in force");
  if (ms) {
    if (m.form == FORM_BOX3) {
      W((long)M.num_cells<Entity_type::ALL>() == m.n[0] * m.n[1] * m.n[2] && (long)M.num_nodes<Entity_type::ALL>() == (m.n[0] + 1) * (m.n[1] + 1) * (m.n[2] + 1), "%d cells and %d nodes", M.num_cells<Entity_type::ALL>(), M.num_nodes<Entity_type::ALL>());
      std::vector<std::array<double, 3> > got;
      for (int n = 0; n < M.num_nodes<Entity_type::ALL>(); ++n) { Point q(3); M.node_get_coordinates(n, &q); got.push_back({{q[0], q[1], q[2]}}); }
      std::vector<char> seen(got.size(), 0);
      for (auto& q : got) {
        int ix[3];
        for (int d = 0; d < 3; ++d) {
          double t = (q[d] - m.b[d]) / (m.b[d + 3] - m.b[d]) * m.n[d];
          ix[d] = (int)std::lround(t);
          W(ix[d] >= 0 && ix[d] <= m.n[d] && std::fabs(t - ix[d]) < 1e-9, "node at coordinate %g is off the grid %g..%g of %ld cells", q[d], m.b[d], m.b[d + 3], m.n[d]);
        }
        size_t id = ix[0] + (m.n[0] + 1) * (ix[1] + (m.n[1] + 1) * (size_t)ix[2]);
        W(!seen[id], "two nodes at one place"); seen[id] = 1;
      }
    } else {
      W((size_t)M.num_nodes<Entity_type::ALL>() == m.x.size() && (size_t)M.num_cells<Entity_type::ALL>() + 1 == m.x.size(), "%d nodes and %d cells, expected %zu and %zu", M.num_nodes<Entity_type::ALL>(), M.num_cells<Entity_type::ALL>(), m.x.size(), m.x.size() - 1);
      double sc = 1; for (double v : m.x) sc = std::max(sc, std::fabs(v));
      for (size_t n = 0; n < m.x.size(); ++n) { Point q(1); M.node_get_coordinates((int)n, &q); W(near(q[0], m.x[n], sc), "node %zu is at %.17g instead of %.17g", n, q[0], m.x[n]); }
      for (size_t c = 0; c + 1 < m.x.size(); ++c) {
        double r0 = m.x[c], r1 = m.x[c + 1], v = M.cell_volume((int)c);
        if (geom == JaliGeometry::Geom_type::CARTESIAN) W(near(v, r1 - r0, sc), "cell %zu has volume %g", c, v);
        if (geom == JaliGeometry::Geom_type::SPHERICAL && r0 >= 0) W(near(v, 4.0 / 3.0 * M_PI * (r1 * r1 * r1 - r0 * r0 * r0), sc * sc * sc * 10), "cell %zu has volume %g", c, v);
      }
    }
  }
#ifdef HAVE_MSTK_MESH
  if (const Jali::Mesh_MSTK* mm = dynamic_cast<const Jali::Mesh_MSTK*>(&M)) {
    const BackendCall& c = mm->call();
    W(c.form == m.form, "the backend was asked for another form of mesh");
    W(c.contiguous == o.contig, "contiguous ids %d instead of %d", c.contiguous, o.contig);
    for (int d = 0; d < 2 * D; ++d) W(c.b[d] == m.b[d], "domain bound %d is %g instead of %g", d, c.b[d], m.b[d]);
    for (int d = 0; d < D; ++d) W(c.n[d] == m.n[d], "number of cells in direction %d is %ld instead of %ld", d, c.n[d], m.n[d]);
    if (m.form == FORM_FILE) W(c.file == m.file, "another file");
    if (m.form == FORM_EXTRACT) W(c.in == m.in && c.sets == m.sets && c.kind == m.kind && c.flatten == m.flatten && c.extrude == m.extrude, "extraction arguments differ");
    if (nr == 1) { W(M.num_cells<Entity_type::PARALLEL_GHOST>() == 0, "ghost cells on one rank"); }
  }
#endif
  sim::log(h.h); state_hash(h.h);
#undef W
}

static void run(const Plan& p) {
  Quiet quiet;
  int nr = (int)std::max(1l, std::min(3l, p.get("nranks", 1)));
  mpi_set_world(nr);
  std::vector<std::unique_ptr<JaliGeometry::GeometricModel> > gms;
  std::unique_ptr<JaliGeometry::Region> reg;
  for (unsigned d = 2; d <= 3; ++d) gms.emplace_back(new JaliGeometry::GeometricModel(d));
  { JaliGeometry::Point a(3), b(3); a.set(-9, -9, -9); b.set(9, 9, 9); reg.reset(new JaliGeometry::BoxRegion("everything", 1, a, b)); gms.emplace_back(new JaliGeometry::GeometricModel(3)); gms.back()->Add_Region(reg.get()); }
  std::vector<int> cur(nr, -1); std::vector<char> hit(nr, 0);
  backend().leave = nullptr;
  backend().enter = [&](const BackendCall&) {
    int r = mpi_rank();
    for (auto& f : p.faults) if (f.kind == F_BACKEND && f.where == cur[r] && f.k % nr == r) { hit[r] = 1; fault_fired(F_BACKEND); throw std::runtime_error("backend failed"); }
  };
  int made_ = 0, resets = 0;
  auto body = [&](int rank) {
    std::shared_ptr<Jali::Mesh> base;
    if (have_backend) { GOpt g{3, 2, 2, 1, 0, 0, 5}; base = std::make_shared<SimMesh>(make_gmesh(g), IV(), 0, SimOpts(), (MPI_Comm)mpi_world(), gms[1].get()); }
    const Opt dflt = defaults(); Opt m = dflt;
    Jali::MeshFactory f((MPI_Comm)mpi_world());
    std::vector<Made> made;
    check_getters(f, m, "new factory");
    for (size_t i = 0; i < p.ops.size(); ++i) {
      const Op& o = p.ops[i]; Rng g(o.a[0] * 5 + 9);
      cur[rank] = (int)i; hit[rank] = 0;
      if (rank == 0) trace("[%zu] %s", i, names[o.kind]);
      switch (o.kind) {
        case O_FRAMEWORK: {
          static const Jali::MeshFramework_t fw[] = {Jali::Simple, Jali::MSTK, Jali::Simple, Jali::MSTK, Jali::MOAB, Jali::STKMESH};
          Jali::MeshFramework_t w = fw[g.below(6)];
          if (!have_backend && g.chance(3, 4)) w = Jali::Simple;
          bool threw = throws_jali([&]() { f.framework(w); });
          bool bad = w == Jali::MOAB || w == Jali::STKMESH;
          if (threw != bad) failf("option", "choosing framework %d %s", (int)w, threw ? "failed" : "was accepted though it is not available");
          if (!bad) m.fw = w;
          break;
        }
        case O_PARTITIONER: m.part = partitioner((int)g.below(5)); f.partitioner(m.part); break;
        case O_GEOM: { static const JaliGeometry::Geom_type t[] = {JaliGeometry::Geom_type::CARTESIAN, JaliGeometry::Geom_type::CYLINDRICAL, JaliGeometry::Geom_type::SPHERICAL}; m.geom = t[g.below(3)]; f.mesh_geometry(m.geom); break; }
        case O_GHOST: m.gl = (int)g.below(3); f.num_ghost_layers_distmesh(m.gl); break;
        case O_BGHOST: m.bghost = g.below(2) != 0; f.boundary_ghosts_requested(m.bghost); break;
        case O_TILES: m.ntiles = (int)g.below(4); f.num_tiles(m.ntiles); break;
        case O_HALO: m.halo = (int)g.below(3); f.num_ghost_layers_tile(m.halo); break;
        case O_CONTIG: m.contig = g.below(2) != 0; f.contiguous_gids(m.contig); break;
        case O_INCLUDE: case O_INCLUDE1: {
          std::vector<Entity_kind> l;
          if (g.chance(1, 8)) l.push_back(Entity_kind::ALL_KIND);
          else for (int k = 0, n = o.kind == O_INCLUDE ? (int)g.below(4) : 1; k < n; ++k) l.push_back(ALLKINDS[g.below(7)]);
          if (o.kind == O_INCLUDE) f.included_entities(l); else f.included_entities(l[0]);
          for (auto k : l) {
            bool all = k == Entity_kind::ALL_KIND;
            if (all || k == Entity_kind::EDGE) m.edges = true; if (all || k == Entity_kind::FACE) m.faces = true; if (all || k == Entity_kind::SIDE) m.sides = true;
            if (all || k == Entity_kind::WEDGE) m.wedges = true; if (all || k == Entity_kind::CORNER) m.corners = true;
          }
          break;
        }
        case O_EXCLUDE: {
          std::vector<Entity_kind> l;
          for (int k = 0, n = (int)g.below(4); k < n; ++k) l.push_back(ALLKINDS[g.below(7)]);
          f.excluded_entities(l);
          for (auto k : l) { if (k == Entity_kind::EDGE) m.edges = false; if (k == Entity_kind::SIDE) m.sides = false; if (k == Entity_kind::WEDGE) m.wedges = false; if (k == Entity_kind::CORNER) m.corners = false; }
          break;
        }
        case O_MODEL: { int k = (int)g.below(4); m.gm = k == 3 ? nullptr : gms[k].get(); f.geometric_model(m.gm); break; }
        case O_RESET: f.reset_options(); m = dflt; if (rank == 0) ++resets; break;
        case O_DROP: if (!made.empty()) made.erase(made.begin() + g.below((long)made.size())); break;
        case O_CREATE: {
          Made q; q.form = (int)o.a[1] % NFORMS; q.o = m; q.in = nullptr; q.kind = Entity_kind::CELL; q.flatten = q.extrude = false;
          int D = q.form == FORM_BOX3 ? 3 : q.form == FORM_BOX2 ? 2 : 1;
          for (int d = 0; d < 3; ++d) q.n[d] = g.range(1, 3);
          if (g.chance(1, 25)) { for (int d = 0; d < D; ++d) q.n[d] = g.range(2, 9); while (q.n[0] * q.n[1] * q.n[2] > 150) --q.n[q.n[0] > 2 ? 0 : q.n[1] > 2 ? 1 : 2]; }
          if (D == 1) q.n[0] = g.chance(1, 25) ? g.range(20, 200) : g.range(1, 20);
          double unit = g.chance(1, 4) ? g.chance(1, 2) ? 1e3 : 1e-3 : 1.0;
          bool pos = g.chance(1, 2);
          for (int d = 0; d < 6; ++d) q.b[d] = 0;
          for (int d = 0; d < D; ++d) { q.b[d] = pos ? (double)g.below(3) : (double)g.range(-3, 3); q.b[d + D] = q.b[d] + 0.37 * g.range(1, 9); q.b[d] *= unit; q.b[d + D] *= unit; }
          if (q.form == FORM_LINE) { double v = q.b[0]; for (int k = 0; k <= q.n[0]; ++k) { q.x.push_back(v); v += (0.1 + g.unit()) * unit; } }
          if (q.form == FORM_INTERVAL) for (int k = 0; k <= q.n[0]; ++k) q.x.push_back(q.b[0] + (q.b[1] - q.b[0]) * k / q.n[0]);
          q.file = g.chance(1, 2) ? "a2d.exo" : "b3d.exo";
          int md = q.form == FORM_FILE ? (q.file == "a2d.exo" ? 2 : 3) : D;
          if (q.form == FORM_EXTRACT) { if (!base) continue; q.in = base.get(); q.sets.push_back("everything"); if (g.chance(1, 2)) q.sets.push_back("another"); q.kind = g.chance(1, 2) ? Entity_kind::CELL : Entity_kind::FACE; q.flatten = g.below(2) != 0; q.extrude = g.below(2) != 0; }
          bool ok = true, may = false;
          if (q.form != FORM_EXTRACT && m.gm && (int)m.gm->dimension() != md) ok = false;
          if (m.fw == Jali::Simple) {
            if (nr > 1 || q.form == FORM_BOX2 || q.form >= FORM_FILE) ok = false;
            if (q.form == FORM_BOX3 && (m.edges || m.sides || m.wedges || m.corners)) may = true;  // the simple framework has no edges in 3D
            if (m.bghost) may = true;
          } else if (!have_backend || D == 1 && q.form <= FORM_INTERVAL) ok = false;
          std::string what; bool threw = false; std::shared_ptr<Jali::Mesh> r;
          std::unique_ptr<AllocFault> af; if (nr == 1) af.reset(new AllocFault(p, (int)i));
          try {
            switch (q.form) {
              case FORM_BOX3: r = f(q.b[0], q.b[1], q.b[2], q.b[3], q.b[4], q.b[5], (int)q.n[0], (int)q.n[1], (int)q.n[2]); break;
              case FORM_BOX2: r = f(q.b[0], q.b[1], q.b[2], q.b[3], (int)q.n[0], (int)q.n[1]); break;
              case FORM_LINE: r = f(q.x); break;
              case FORM_INTERVAL: r = f(q.b[0], q.b[1], (int)q.n[0]); break;
              case FORM_FILE: r = f(q.file); break;
              default: r = f(base, q.sets, q.kind, q.flatten, q.extrude);
            }
          } catch (const std::exception& e) { AllocPause ap; threw = true; what = e.what(); }
          if (af) { af->end(); if (af->fired) hit[rank] = 1; }
          if (!threw && !r) failf("null-mesh", "a failed creation returned a null mesh");
          if (threw && ok && !may && nr == 1 && !hit[rank]) failf("spurious-error", "creation failed although nothing was wrong: %s", what.c_str());
          if (!threw && hit[rank]) failf("error-lost", "creation succeeded although memory ran out");
          if (!threw && !ok) failf("error-lost", "creation succeeded although the options in force do not allow it");
          if (r) { q.mesh = r; made.push_back(q); ++made_; if (made.size() > 6) made.erase(made.begin()); }
          break;
        }
      }
      check_getters(f, m, names[o.kind]);
      for (auto& q : made) check_mesh(q, nr, names[o.kind]);
    }
  };
  std::vector<std::function<void()> > bodies;
  for (int r = 0; r < nr; ++r) bodies.push_back([&body, r]() { body(r); });
  SchedCfg sc; sc.mean_gap = 3;
  run_tasks(p, sc, bodies);
  if (made_ >= 2 || (made_ && resets)) note_nontrivial();
  backend().enter = nullptr;
}

namespace sim {
extern const Workload workload = {
    "C02", names, NOPS, generate, run,
    "one case: a history of 3..30 option settings, resets, creations of every form and failures on one factory (1..3 ranks); non-trivial: at least two meshes made, or a mesh made and a reset",
#ifdef HAVE_MSTK_MESH
    "MeshFactory (with its MSTK branches), Mesh_simple, Mesh, MeshTile, GeometricModel",
    "MPI (simulated ranks as tasks of one process), the MSTK framework (stub that records its arguments)",
#else
    "MeshFactory (without an external framework, as the repository builds here), Mesh_simple, Mesh, MeshTile, GeometricModel",
    "MPI (simulated ranks as tasks of one process)",
#endif
    "the default partitioner and framework are those of a newly made factory|boundary ghosts and 3D edges may be refused by the simple framework",
    true};
}
