// C06: geometry is current after any history of node motion.
#include "geomref.hpp"
#include <new>
using namespace simm;
using namespace sim;

enum { O_MOVE = 0, O_AFFINE, O_UPDATE, O_CHECK, O_QUERIES, NOPS };
static const char* const names[] = {"move-node", "move-all", "update-geometry", "check-recomputed", "query-burst"};

static void generate(Plan& p, Rng& r) {
  for (int m = 0; m < 2; ++m) {
    std::string pre = m ? "b." : "a.";
    gen_spec(p, r, pre, r.chance(1, 3), true);
    if (r.chance(1, 2)) p.cfg[pre + "sub"] = 3;
    if (p.cfg[pre + "mk"] == MK_3D && !r.chance(1, 8)) for (const char* d : {"nx", "ny", "nz"}) p.cfg[pre + d] = r.range(1, 2);
    if (r.chance(1, 4)) gen_tiles(p, r, pre);
    gen_big(p, r, pre, 1);
    p.cfg[pre + "surf"] = r.chance(1, 4) ? r.range(1, 2) : 0;
    p.cfg[pre + "sph"] = r.chance(1, 3);
    p.cfg[pre + "bg"] = r.chance(1, 6);
  }
  p.cfg["two"] = r.chance(1, 2);
  p.cfg["heap"] = r.below(5);
  int n = gen_len(r, 1, 14);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = r.chance(1, 2) ? (int)r.below(2) : (int)r.below(NOPS);
    for (long& a : o.a) a = r.below(100000);
    p.ops.push_back(o);
    if (o.kind == O_UPDATE && r.chance(1, 3)) { Fault f; f.kind = F_ALLOC; f.where = i; f.k = r.below(400); f.n = 1; p.faults.push_back(f); }
  }
}

struct M {
  Built b;
  std::vector<X3> X;          // present coordinates (the model)
  GeoDump cached; bool have = false;
  bool dirty = false, moved = false;
  double h = 0.25, h0 = 0.25;
  std::vector<X3> X0;         // where the nodes were at first
  int looks = 0, scale = 0;
};

static M make(const Plan& p, const std::string& pre) {
  M m; MeshSpec s = get_spec(p, pre);
  if (s.mk == MK_SIMPLE1 && p.get(pre + "sph", 0)) s.spherical = true;
  m.b = build_mesh(s);
  m.X = m.b.ref.X;
  for (int n = 0; n < (int)m.X.size(); ++n) {  // exact starting values, once shown to be the right ones
    Point q; m.b.mesh->node_get_coordinates(n, &q);
    for (int d = 0; d < m.b.space(); ++d) {
      if (!close(q[d], m.X[n][d], 100)) failf("node-coords", "new mesh: node %d is at %.17g in direction %d, expected %.17g", n, q[d], d, m.X[n][d]);
      m.X[n][d] = q[d];
    }
  }
  double h = 1e30;
  for (auto& c : m.b.ref.cn) for (size_t i = 0; i < c.size(); ++i) for (size_t j = i + 1; j < c.size(); ++j) h = std::min(h, len(v3(m.X[c[i]]) - v3(m.X[c[j]])));
  m.h = m.h0 = h < 1e29 ? h : 0.25; m.X0 = m.X;
  return m;
}
static void set_node(M& m, int n, const X3& x, bool ptr) {
  int dim = m.b.space();
  if (ptr) { double c[3] = {x[0], x[1], x[2]}; m.b.mesh->node_set_coordinates(n, c); }
  else { Point q(dim); if (dim == 1) q.set(x[0]); else if (dim == 2) q.set(x[0], x[1]); else q.set(x[0], x[1], x[2]); m.b.mesh->node_set_coordinates(n, q); }
  m.X[n] = x;
  for (int d = dim; d < 3; ++d) m.X[n][d] = 0;
}
// coordinates as reported
static void check_coords(M& m, const char* when) {
  int dim = m.b.space(); const Jali::Mesh& K = *m.b.mesh;
  for (int n = 0; n < (int)m.X.size(); ++n) {
    Point q; K.node_get_coordinates(n, &q);
    if (q.dim() != dim) failf("node-coords", "%s: node %d has a point of dimension %d", when, n, (int)q.dim());
    for (int d = 0; d < dim; ++d) if (q[d] != m.X[n][d]) failf("node-coords", "%s: node %d is at %.17g in direction %d, was set to %.17g", when, n, q[d], d, m.X[n][d]);
  }
  std::vector<Point> pts; L nodes;
  for (int c = 0; c < m.b.ref.nc_(); ++c) {
    K.cell_get_nodes(c, &nodes); K.cell_get_coordinates(c, &pts);
    if (pts.size() != nodes.size()) failf("cell-coords", "%s: cell %d has %zu nodes, %zu points", when, c, nodes.size(), pts.size());
    for (size_t i = 0; i < pts.size(); ++i) for (int d = 0; d < dim; ++d) if (pts[i][d] != m.X[nodes[i]][d]) failf("cell-coords", "%s: point %zu of cell %d is not where its node is", when, i, c);
  }
  if (spec_has(m.b.spec, Entity_kind::FACE)) for (int f = 0; f < (int)m.b.ref.fn.size(); ++f) {
    K.face_get_nodes(f, &nodes); K.face_get_coordinates(f, &pts);
    if (pts.size() != nodes.size()) failf("face-coords", "%s: face %d has %zu nodes, %zu points", when, f, nodes.size(), pts.size());
    for (size_t i = 0; i < pts.size(); ++i) for (int d = 0; d < dim; ++d) if (pts[i][d] != m.X[nodes[i]][d]) failf("face-coords", "%s: point %zu of face %d is not where its node is", when, i, f);
  }
}
static std::shared_ptr<Jali::Mesh> fresh(M& m) {
  const MeshSpec& s = m.b.spec; SimOpts o = simopts(s); MPI_Comm comm = (MPI_Comm)mpi_world();
  if (s.mk <= MK_3D) {
    GMesh g = m.b.g;
    for (size_t n = 0; n < m.X.size(); ++n) g.X[m.b.sm->n_g[n]] = m.X[n];
    return std::make_shared<SimMesh>(g, m.b.part, s.rank, o, comm, nullptr, s.numbering);
  }
  if (s.mk == MK_SIMPLE1) {
    std::vector<double> x; for (auto& q : m.X) x.push_back(q[0]);
    return std::make_shared<Jali::Mesh_simple>(x, comm, nullptr, o.faces, o.edges, o.sides, o.wedges, o.corners, o.ntiles, o.halo, 0, false, o.part,
                                               s.spherical ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN);
  }
  return nullptr;
}
static void dump_same(const GeoDump& a, const GeoDump& b, const char* cls, const char* when) {
  if (a.v.size() != b.v.size()) failf(cls, "%s: %zu values, were %zu", when, b.v.size(), a.v.size());
  for (size_t i = 0; i < a.v.size(); ++i) if (a.v[i].v != b.v[i].v || a.v[i].id != b.v[i].id) failf(cls, "%s: %s of %d changed from %.17g to %.17g", when, a.v[i].what, a.v[i].id, a.v[i].v, b.v[i].v);
}
// the cached values must be those of the last look (nothing updated them since)
static void check_unchanged(M& m, const char* cls, const char* when) {
  GeoDump d = geodump(*m.b.mesh, m.b.spec, false, false);
  if (m.have) dump_same(m.cached, d, cls, when);
  m.cached = d; m.have = true;
}
static Sample sample(M& m) {
  Sample s; int n = m.b.mesh->num_sides();
  s.step = m.b.space() == 3 && n > 60 ? n / 30 : 1; s.off = ++m.looks * 7;
  return s;
}
static GeoRef georef_of(M& m) {
  GeoRef g = georef(m.b.ref, m.X, m.b.spec.spherical);
  if (m.b.spec.bghost) for (int c = 0; c < m.b.ref.nc_(); ++c) g.none.push_back(m.b.mesh->entity_get_type(Entity_kind::CELL, c) == Entity_type::BOUNDARY_GHOST);
  return g;
}
static void check_recomputed(M& m, const char* when) {
  GeoRef g = georef_of(m);
  check_georef(*m.b.mesh, m.b.spec, m.b.ref, g, true, when, sample(m));
}
static void check_current(M& m, const char* when) {
  GeoRef g = georef_of(m);
  check_georef(*m.b.mesh, m.b.spec, m.b.ref, g, false, when);
  Sample sm = sample(m);
  GeoDump c = geodump(*m.b.mesh, m.b.spec, false, false), cs = geodump(*m.b.mesh, m.b.spec, false, false, sm), r = geodump(*m.b.mesh, m.b.spec, true, false, sm);
  dump_equal(cs, r, g.scale, "cached-vs-recomputed", when);
  m.cached = c; m.have = true;
  auto f = fresh(m);
  if (f) { GeoDump a = geodump(*m.b.mesh, m.b.spec, false, true), n = geodump(*f, m.b.spec, false, true); dump_equal(a, n, g.scale, "cached-vs-new-mesh", when); }
  Hash h; for (auto& i : m.cached.v) { double q = std::floor(i.v * 1e4 + 0.5); h.add_d(q == 0 ? 0.0 : q); }
  state_hash(h.h);
}
static void burst(M& m, Rng& r) {
  const Jali::Mesh& K = *m.b.mesh; const MeshSpec& s = m.b.spec;
  for (int i = 0; i < 25; ++i) {
    bool rc = r.chance(1, 2);
    int c = (int)r.below(m.b.ref.nc_());
    auto pick = [&](int n) { return (int)r.below(n); };
    switch (r.below(9)) {
      case 0: K.cell_volume(c, rc); break;
      case 1: K.cell_centroid(c, rc); break;
      case 2: if (spec_has(s, Entity_kind::FACE)) { int f = pick(K.num_faces()); K.face_area(f, rc); K.face_centroid(f, rc); K.face_normal(f, rc); } break;
      case 3: if (spec_has(s, Entity_kind::FACE)) { int f = pick(K.num_faces()); L fc; K.face_get_cells(f, Entity_type::ALL, &fc); if (!fc.empty()) K.face_normal(f, rc, fc[r.below((long)fc.size())]); } break;
      case 4: if (spec_has(s, Entity_kind::EDGE)) { int e = pick(K.num_edges()); K.edge_length(e, rc); K.edge_vector(e, rc); K.edge_centroid(e); } break;
      case 5: if (spec_has(s, Entity_kind::SIDE)) { int e = pick(K.num_sides()); K.side_volume(e, rc); K.side_facet_normal(e, rc); std::vector<Point> x; K.side_get_coordinates(e, &x, r.chance(1, 2)); } break;
      case 6: if (spec_has(s, Entity_kind::WEDGE)) { int e = pick(K.num_wedges()); K.wedge_volume(e, rc); K.wedge_facet_normal(e, (unsigned)r.below(2), rc); std::vector<Point> x; K.wedge_get_coordinates(e, &x, r.chance(1, 2)); } break;
      case 7: if (spec_has(s, Entity_kind::CORNER)) { int e = pick(K.num_corners()); K.corner_volume(e, rc); std::vector<Point> x; K.corner_get_coordinates(e, &x); } break;
      default: { std::vector<Point> x; K.cell_get_coordinates(c, &x); } break;
    }
  }
}

static void run(const Plan& p) {
  std::vector<M> ms;
  ms.push_back(make(p, "a."));
  if (p.get("two", 0)) ms.push_back(make(p, "b."));
  if (ms[0].b.ref.nc_() == 0) return;
  for (auto& m : ms) if (m.b.ref.nc_()) check_current(m, "after construction");
  int updates = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i];
    size_t mi = o.a[5] % ms.size();
    M& m = ms[mi];
    if (m.b.ref.nc_() == 0) continue;
    int dim = m.b.space();
    Rng r(o.a[1] * 977 + 13);
    if (o.kind == O_MOVE) {
      int n = (int)(o.a[0] % m.X.size());
      X3 x = m.X[n];
      if (dim == 1) {
        double lo = n ? m.X[n - 1][0] : x[0] - m.h, hi = n + 1 < (int)m.X.size() ? m.X[n + 1][0] : x[0] + m.h;
        if (m.b.spec.spherical) lo = std::max(lo, n ? lo : 0.0);
        x[0] = lo + (hi - lo) * (0.3 + 0.4 * r.unit());
        if (m.b.spec.spherical && n == 0) x[0] = std::min(x[0], 0.9 * (m.X.size() > 1 ? m.X[1][0] : x[0]));
      } else for (int d = 0; d < dim; ++d) x[d] = m.b.ref.X[n][d] == m.X[n][d] || r.chance(1, 2) ? x[d] + 0.08 * m.h * (r.unit() - 0.5) : x[d];
      set_node(m, n, x, o.a[2] % 2);
      m.dirty = m.moved = true;
      trace("[%zu] mesh %zu: node %d moved to (%g,%g,%g)", i, mi, n, x[0], x[1], x[2]);
    } else if (o.kind == O_AFFINE) {
      double A[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, t[3] = {0, 0, 0};
      int how = (int)(o.a[0] % 9); const char* what = "affine motion";
      bool back = false;
      if (how == 4) {  // a shift: nothing but positions changes
        what = "translation"; for (double& d : t) d = r.chance(2, 3) ? (double)r.range(-16, 16) / (r.chance(1, 2) ? 1 : 1000) : 0;
      } else if (how == 5) {  // larger or smaller
        what = "scaling"; int k = (int)r.range(-5, 5); k = std::max(-8, std::min(8, m.scale + k)) - m.scale; m.scale += k; m.h = std::ldexp(m.h, k);
        for (int a = 0; a < 3; ++a) A[a][a] = std::ldexp(1.0, k);
      } else if (how == 6 && dim > 1) {  // lengths, areas and volumes stay
        what = "rotation"; int a = dim == 3 ? (int)r.below(3) : 0, b = dim == 3 ? (a + 1) % 3 : 1; double w = r.chance(1, 2) ? 1.57079632679489662 * r.range(1, 3) : 6.28 * r.unit();
        A[a][a] = A[b][b] = std::cos(w); A[a][b] = -std::sin(w); A[b][a] = std::sin(w);
      } else if (how == 7) {  // hardly any motion
        what = "slight motion"; for (int a = 0; a < dim; ++a) A[a][a] = 1 + (r.unit() - 0.5) * 1e-5;
      } else if (how == 8) { what = "motion back to the start"; back = true; m.scale = 0; m.h = m.h0; }
      else for (int a = 0; a < 3; ++a) { t[a] = r.chance(1, 2) ? (double)r.range(-2, 2) : 0; for (int b = 0; b < 3; ++b) A[a][b] = a == b ? 0.9 + 0.4 * r.unit() : 0.1 * (r.unit() - 0.5); }
      if (m.b.spec.spherical) t[0] = 0;
      for (int n = 0; n < (int)m.X.size(); ++n) {
        X3 x = {{0, 0, 0}};
        for (int a = 0; a < dim; ++a) { x[a] = t[a]; for (int b = 0; b < dim; ++b) x[a] += A[a][b] * m.X[n][b]; }
        if (back) x = m.X0[n];
        set_node(m, n, x, (o.a[2] + n) % 2);
      }
      m.dirty = m.moved = true;
      trace("[%zu] mesh %zu: %s of all nodes", i, mi, what);
    } else if (o.kind == O_UPDATE) {
      check_unchanged(m, "cache-changed", "before an update");
      AllocFault af(p, (int)i);
      bool failed = false;
      try { m.b.mesh->update_geometric_quantities(); } catch (const std::bad_alloc&) { failed = true; }
      af.end();
      if (failed && !af.fired) failf("spurious-error", "update ran out of memory although no allocation failed");
      if (failed) {
        probe("update interrupted by allocation failure");
        trace("[%zu] mesh %zu: update fails", i, mi);
        check_recomputed(m, "after a failed update");
        m.b.mesh->update_geometric_quantities();
      }
      trace("[%zu] mesh %zu: update", i, mi);
      check_coords(m, "after an update");
      check_current(m, "after an update");
      m.dirty = false; ++updates;
      if (m.moved) note_nontrivial();
    } else if (o.kind == O_CHECK) {
      check_unchanged(m, "cache-changed", "before recomputing queries");
      check_coords(m, "before an update");
      check_recomputed(m, m.dirty ? "recomputed before an update" : "recomputed");
      check_unchanged(m, "cache-changed", "after recomputing queries");
      if (m.dirty) probe("recomputation while the cache is stale");
    } else {
      check_unchanged(m, "cache-changed", "before a burst of queries");
      GeoDump d0 = geodump(*m.b.mesh, m.b.spec, false, true);
      burst(m, r);
      GeoDump d1 = geodump(*m.b.mesh, m.b.spec, false, true);
      dump_same(d0, d1, "query-changed-answers", "after a burst of queries");
      check_unchanged(m, "cache-changed", "after a burst of queries");
      trace("[%zu] mesh %zu: queries", i, mi);
    }
    if (ms.size() > 1 && o.a[4] % 2) {
      M& q = ms[1 - mi];
      if (q.b.ref.nc_()) { check_coords(q, "other mesh"); check_unchanged(q, "mesh-crosstalk", "after an operation on another mesh"); if (o.a[3] % 3 == 0) check_recomputed(q, "other mesh, recomputed"); }
    }
    sim::log((uint64_t)o.kind); sim::log((uint64_t)mi);
  }
  for (auto& m : ms) if (m.b.ref.nc_()) { m.b.mesh->update_geometric_quantities(); check_current(m, "at the end"); if (m.moved) note_nontrivial(); for (auto& q : m.cached.v) log_d(q.v); }
  if (updates > 1) probe("several updates");
}

namespace sim {
extern const Workload workload = {
    "C06", names, NOPS, generate, run,
    "one case = one simulated run: one or two meshes (polygonal, surface, polyhedral, one rank of a distributed mesh, or the built-in framework in 1D Cartesian, 1D spherical and 3D) and a random history of node moves, updates (some interrupted by an allocation failure), queries and checks; non-trivial when some node moved before a check against the reference",
    "Mesh (geometry caches, sides, wedges, corners), Geometry, Mesh_simple, Point",
    "mesh framework for polygonal/polyhedral and distributed meshes (SimMesh, behind the abstract Mesh interface), MPI communicator",
    "face areas, centroids and normals are compared with the reference for planar faces only; cached, recomputed and newly built values are compared for all|node motion keeps cells star-shaped",
    true};
}
