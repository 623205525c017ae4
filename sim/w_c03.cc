// C03: concurrent read-only queries are race free and match sequential answers.
#include "stateref.hpp"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "LogicalRegion.hh"
#include "LabeledSetRegion.hh"
#include <sstream>
using namespace simm;
using namespace sim;
namespace JG = JaliGeometry;
using Jali::Mesh; using Jali::MeshTile; using Jali::State; using Jali::Data_layout; using Jali::MeshSet;
extern "C" long simt_accesses() __attribute__((weak));

enum { O_COUNTS = 0, O_LISTS, O_TYPES, O_CELL, O_FACE, O_EDGE, O_NODE, O_SIDE, O_WEDGE, O_CORNER, O_GEOM, O_RECOMP, O_PIC, O_TILE, O_SET, O_REGION, O_STATE, O_VECTOR, O_MAT, O_GID, O_BUILD, O_COPY, O_MAKESET, NOPS };
static const char* const names[] = {"count-entities", "list-entities", "entity-types", "query-cell", "query-face", "query-edge", "query-node", "query-side", "query-wedge", "query-corner",
                                    "read-geometry", "recompute-geometry", "point-in-cell", "query-tile", "query-set", "query-region", "search-state", "read-vector", "query-materials", "global-ids",
                                    "build-unrelated-mesh", "copy-state-vector", "use-own-mesh"};

static void generate(Plan& p, Rng& r) {
  gen_spec(p, r, "", r.chance(1, 2), true); p.cfg["bg"] = r.chance(1, 6); gen_tiles(p, r, "");
  if (p.cfg["mk"] >= 2) { p.cfg.erase("nranks"); p.cfg.erase("rank"); }
  p.cfg["nx"] = r.range(1, 3); p.cfg["ny"] = r.range(1, 3); p.cfg["nz"] = r.range(1, 2);
  if (p.cfg["mk"] == MK_SIMPLE1) p.cfg["nx"] = r.range(1, 8);
  if (r.chance(1, 3)) p.cfg["ntiles"] = 0;
  if (r.chance(1, 3)) p.cfg["sub"] = 3;
  p.cfg["nt"] = r.range(2, 4);
  p.cfg["rseed"] = r.range(1, 1000000);
  p.cfg["warm"] = r.chance(1, 4);
  p.cfg["sph"] = r.chance(1, 4);
  p.cfg["gap"] = r.chance(1, 3) ? r.range(3, 40) : r.range(40, 3000);
  int n = (int)r.range(4, 24);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = (int)r.below(NOPS);
    if (o.kind == O_BUILD && r.chance(2, 3)) o.kind = (int)r.below(O_TILE);
    for (long& a : o.a) a = r.below(100000);
    o.task = (int)r.below(p.cfg["nt"]);
    p.ops.push_back(o);
    if (r.chance(1, 2)) { o.task = (o.task + 1) % (int)p.cfg["nt"]; p.ops.push_back(o); }  // the same question from another thread
  }
  if (r.chance(1, 3)) { Fault f; f.kind = F_STALL; f.where = (int)r.below((long)p.ops.size()); f.k = 0; f.n = r.range(10, 20000); p.faults.push_back(f); }
}

struct World {
  const Plan* p; MeshSpec s; Built b; std::shared_ptr<Mesh> m;
  std::vector<std::shared_ptr<JG::Region> > keep; std::unique_ptr<JG::GeometricModel> gm;
  std::vector<std::string> regs, vecs; std::shared_ptr<State> st; int dim;
  bool has(Entity_kind k) const { return spec_has(s, k); }
};
static void add_labels(GMesh& g) {
  Rng r(g.nc() * 7 + g.nn());
  for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k) {
    Entity_kind K = k == 0 ? Entity_kind::CELL : k == 1 ? Entity_kind::NODE : Entity_kind::FACE;
    int n = k == 0 ? g.nc() : k == 1 ? g.nn() : g.nf();
    std::set<int> v; for (int j = 0; j < n; ++j) if (r.chance(1, 3)) v.insert(j);
    g.labels["L" + std::to_string(i)][(int)K] = v;
  }
}
static void make_world(World& w, const Plan& p) {
  w.p = &p; w.s = get_spec(p, ""); w.s.spherical = w.s.mk == MK_SIMPLE1 && p.get("sph", 0);
  w.dim = w.s.mk == MK_2D ? 2 : w.s.mk == MK_SIMPLE1 ? 1 : 3;
  Rng g(p.get("rseed", 0) + 3);
  int nreg = w.dim == 1 ? 0 : (int)g.range(0, 4); double ext = 1.0;
  if (w.dim > 1) w.gm.reset(new JG::GeometricModel(w.dim));
  auto pt = [&](double a, double b, double c) { Point q(w.dim); double v[3] = {a, b, c}; for (int d = 0; d < w.dim; ++d) q[d] = v[d]; return q; };
  (void)ext;
  std::vector<int> cat;
  for (int i = 0; i < nreg; ++i) {
    std::string n = "region" + std::to_string(i); std::shared_ptr<JG::Region> rg; int c = -1;
    int ty = (int)g.below(i ? 6 : 5); if (ty >= 4) ty = 9 - ty;
    if (ty == 3 && w.s.mk > MK_3D) ty = 0;
    double u[3], v[3]; for (int d = 0; d < 3; ++d) { u[d] = -4.013 + 5 * g.unit(); v[d] = u[d] + 0.5 + 5 * g.unit(); }
    if (ty == 0) rg = std::make_shared<JG::BoxRegion>(n, i + 1, pt(u[0], u[1], u[2]), pt(v[0], v[1], v[2]));
    else if (ty == 1) rg = std::make_shared<JG::PlaneRegion>(n, i + 1, pt(0, 0, 0), pt(g.below(2), g.below(2), 1));
    else if (ty == 2) rg = std::make_shared<JG::PointRegion>(n, i + 1, pt(0.513, 0.521, 0.537));
    else if (ty == 3) { c = (int)g.below(2); rg = std::make_shared<JG::LabeledSetRegion>(n, i + 1, c == 0 ? "CELL" : "NODE", "file", "Exodus II", "L" + std::to_string(g.below(2))); }
    else if (ty == 5) { std::vector<Point> v; if (w.dim == 2) v = {pt(-3, 0, 0), pt(3, g.below(2), 0)}; else for (int k = 0; k < 4; ++k) v.push_back(pt(k == 0 || k == 3 ? -3 : 3, k < 2 ? -3 : 3, 0));
      rg = std::make_shared<JG::PolygonRegion>(n, i + 1, (unsigned)v.size(), v); }
    else { int o = (int)g.below((long)w.regs.size()); c = cat[o]; static const JG::Bool_type ops[] = {JG::Bool_type::UNION, JG::Bool_type::COMPLEMENT};
           rg = std::make_shared<JG::LogicalRegion>(n, i + 1, ops[g.below(2)], std::vector<std::string>{w.regs[o]}); }
    w.keep.push_back(rg); w.gm->Add_Region(rg.get()); w.regs.push_back(n); cat.push_back(c);
  }
  w.b = build_mesh(w.s, w.gm.get(), add_labels);
  w.m = w.b.mesh;
  if (!w.regs.empty() && g.chance(3, 4)) w.m->init_sets_from_geometric_model();
  // explicit sets
  for (int i = 0; i < (int)g.below(3); ++i) {
    Entity_kind K = g.chance(1, 2) ? Entity_kind::CELL : ALLKINDS[g.below(7)]; if (!w.has(K)) K = Entity_kind::CELL;
    L a, b; for (int c = 0; c < (int)w.m->num_entities(K, Entity_type::ALL); ++c) if (g.chance(1, 2) && w.m->entity_get_type(K, c) != Entity_type::BOUNDARY_GHOST) (w.m->entity_get_type(K, c) == Entity_type::PARALLEL_OWNED ? a : b).push_back(c);
    Jali::make_meshset("set" + std::to_string(i), *w.m, K, a, b, g.chance(1, 2));
    w.regs.push_back("set" + std::to_string(i));
  }
  // state: vectors on the mesh and its tiles, materials, multi-valued vectors
  w.st = State::create(w.m);
  int nv = (int)g.range(0, 5);
  for (int i = 0; i < nv; ++i) {
    std::string n = "v" + std::to_string(g.below(3)); Entity_kind K = ALLKINDS[g.below(7)]; if (!w.has(K)) K = Entity_kind::CELL;
    int T = (int)g.below(NT); w.vecs.push_back(n);
    with_type(T, [&](auto tg) {
      typedef typename decltype(tg)::type E;
      if (!w.m->tiles().empty() && g.chance(1, 2)) {
        auto t = w.m->tiles()[g.below((long)w.m->tiles().size())];
        auto& v = w.st->add<E, MeshTile, Jali::UniStateVector>(n, t, K, Entity_type::ALL, TT<E>::make(i));
        for (size_t k = 0; k < v.size(); ++k) v[k] = TT<E>::make((long)(k * 37 + i));
      } else {
        auto& v = w.st->add<E, Mesh, Jali::UniStateVector>(n, w.m, K, Entity_type::ALL, TT<E>::make(i));
        for (size_t k = 0; k < v.size(); ++k) v[k] = TT<E>::make((long)(k * 31 + i));
      }
    });
  }
  int nm = (int)g.below(4);
  for (int i = 0; i < nm; ++i) { std::vector<int> cells; for (int c = 0; c < (int)w.m->num_cells(); ++c) if (g.chance(1, 2)) cells.push_back(c); w.st->add_material("mat" + std::to_string(i), cells); }
  if (nm) for (int i = 0; i < 2; ++i) {
    auto& v = w.st->add<double, Mesh, Jali::MultiStateVector>("mv" + std::to_string(i), w.m, Entity_kind::CELL, Entity_type::ALL);
    for (int k = 0; k < nm; ++k) for (int c : w.st->material_cells(k)) v(k, c) = 100.0 * k + c + i;
    w.vecs.push_back("mv" + std::to_string(i));
  }
}

// ------------------------------------------------------------------ queries
static void hp(Hash& h, const Point& q) { for (int d = 0; d < (int)q.dim(); ++d) h.add_d(q[d]); }
static void hps(Hash& h, const std::vector<Point>& v) { for (auto& q : v) hp(h, q); h.add(v.size()); }
template <class F> static void ids(const Op& o, int n, F f) {  // one entity or all of them
  if (n <= 0) return;
  if (o.a[5] % 3 == 0) { for (int i = 0; i < n; ++i) f(i); } else f((int)(o.a[0] % n));
}
static void q_sub(Hash& h, const World& w, const Mesh& m, const Op& o, int which) {
  if (which == 0) ids(o, (int)m.num_sides(), [&](int i) {
    h.add(m.side_get_cell(i)); h.add(m.side_get_face(i)); h.add(m.side_get_edge(i)); h.add(m.side_get_edge_use(i)); h.add(m.side_get_node(i, 0)); h.add(m.side_get_node(i, 1)); h.add((uint64_t)m.side_get_opposite_side(i)); h.add((uint64_t)m.master_tile_ID_of_side(i));
    if (w.has(Entity_kind::WEDGE)) { h.add(m.side_get_wedge(i, 0)); h.add(m.side_get_wedge(i, 1)); }
    std::vector<Point> x; m.side_get_coordinates(i, &x, o.a[1] % 2); hps(h, x);
  });
  if (which == 1) ids(o, (int)m.num_wedges(), [&](int i) {
    h.add((uint64_t)m.master_tile_ID_of_wedge(i)); h.add(m.wedge_get_cell(i)); h.add(m.wedge_get_face(i)); h.add(m.wedge_get_edge(i)); h.add(m.wedge_get_node(i)); h.add(m.wedge_get_side(i)); h.add((uint64_t)m.wedge_get_opposite_wedge(i)); h.add(m.wedge_get_adjacent_wedge(i));
    if (w.has(Entity_kind::CORNER)) h.add(m.wedge_get_corner(i));
    std::vector<Point> x; m.wedge_get_coordinates(i, &x, o.a[1] % 2); hps(h, x);
  });
  if (which == 2) ids(o, (int)m.num_corners(), [&](int i) {
    L x; m.corner_get_wedges(i, &x); hash_list(h, x); h.add((uint64_t)m.master_tile_ID_of_corner(i)); h.add(m.corner_get_cell(i)); h.add(m.corner_get_node(i));
    std::vector<Point> c; m.corner_get_coordinates(i, &c); hps(h, c);
    if (w.dim == 1) { std::vector<std::array<int, 1>> f; m.corner_get_facetization(i, &c, &f); hps(h, c); for (auto& q : f) h.add(q[0]); }
    if (w.dim == 2) { std::vector<std::array<int, 2>> f; m.corner_get_facetization(i, &c, &f); hps(h, c); for (auto& q : f) { h.add(q[0]); h.add(q[1]); } }
    if (w.dim == 3) { std::vector<std::array<int, 3>> f; m.corner_get_facetization(i, &c, &f); hps(h, c); for (auto& q : f) { h.add(q[0]); h.add(q[1]); h.add(q[2]); } }
  });
}
static void q_geom(Hash& h, const World& w, const Mesh& m, const Op& o, bool re) {
  int k = (int)(o.a[1] % 6);
  if (k == 0) ids(o, (int)m.num_cells(), [&](int i) { h.add_d(m.cell_volume(i, re)); hp(h, m.cell_centroid(i, re)); });
  if (k == 1 && w.has(Entity_kind::FACE)) ids(o, (int)m.num_faces(), [&](int i) {
    h.add_d(m.face_area(i, re)); hp(h, m.face_centroid(i, re)); hp(h, m.face_normal(i, re)); L c; m.face_get_cells(i, Entity_type::ALL, &c);
    for (int x : c) { int d = 0; hp(h, m.face_normal(i, re, x, &d)); h.add((uint64_t)d); } });
  if (k == 2 && w.has(Entity_kind::EDGE)) ids(o, (int)m.num_edges(), [&](int i) { h.add_d(m.edge_length(i, re)); hp(h, m.edge_vector(i, re)); if (w.dim > 1) hp(h, m.edge_centroid(i)); });
  if (k == 3 && w.has(Entity_kind::SIDE)) ids(o, (int)m.num_sides(), [&](int i) { h.add_d(m.side_volume(i, re)); hp(h, m.side_facet_normal(i, re)); });
  if (k == 4 && w.has(Entity_kind::WEDGE)) ids(o, (int)m.num_wedges(), [&](int i) { h.add_d(m.wedge_volume(i, re)); hp(h, m.wedge_facet_normal(i, 0, re)); hp(h, m.wedge_facet_normal(i, 1, re)); });
  if (k == 5 && w.has(Entity_kind::CORNER)) ids(o, (int)m.num_corners(), [&](int i) { h.add_d(m.corner_volume(i, re)); });
}
template <class M> static void q_lists(Hash& h, const World& w, const M& m) {
  for (int k = 0; k < 7; ++k) if (w.has(ALLKINDS[k])) for (int q = 0; q < 3; ++q) hash_list(h, entities(m, ALLKINDS[k], PTYPES[q]));
}
template <class M> static void q_counts(Hash& h, const World& w, const M& m) {
  for (int k = 0; k < 7; ++k) if (w.has(ALLKINDS[k])) for (int q = 0; q < 3; ++q) { h.add(num_by_template(m, ALLKINDS[k], PTYPES[q])); h.add(m.num_entities(ALLKINDS[k], PTYPES[q])); }
}
static void q_vector(Hash& h, const World& w, const State& S, const std::string& n) {
  for (int T = 0; T < NT; ++T) with_type(T, [&](auto tg) {
    typedef typename decltype(tg)::type E;
    for (int k = 0; k < 7; ++k) {
      auto it = S.template find<E, Mesh, Jali::UniStateVector>(n, w.m, ALLKINDS[k], Entity_type::ALL);
      if (it != S.cend()) { auto* v = uni<E, Mesh>(*it); const auto& cv = *v; h.add(cv.size()); for (auto x = cv.cbegin(); x != cv.cend(); ++x) for (double d : flat1<E>(*x)) h.add_d(d); }
      for (auto& t : w.m->tiles()) {
        auto jt = S.template find<E, MeshTile, Jali::UniStateVector>(n, t, ALLKINDS[k], Entity_type::ALL);
        if (jt != S.cend()) { auto* v = uni<E, MeshTile>(*jt); const auto& cv = *v; h.add(cv.size()); for (size_t i = 0; i < cv.size(); ++i) for (double d : flat1<E>(cv[i])) h.add_d(d); }
      }
    }
  });
  auto it = S.find<double, Mesh, Jali::MultiStateVector>(n, w.m, Entity_kind::CELL, Entity_type::ALL);
  if (it != S.cend()) {
    const auto& v = *multi<double, Mesh>(*it);
    h.add(v.size());
    for (int m = 0; m < S.num_materials(); ++m) { h.add(v.size(m)); for (auto x = v.cbegin(m); x != v.cend(m); ++x) h.add_d(*x);
      std::vector<double> const& md = v.get_matdata(m); if (!md.empty()) { const double* r = v.get_raw_data(m); for (size_t i = 0; i < md.size(); ++i) { h.add_d(md[i]); h.add_d(r[i]); } } for (int c : S.material_cells(m)) { h.add_d(v(m, c)); h.add_d(v(c, m, Data_layout::CELL_CENTRIC)); } }
  }
}
static uint64_t own_mesh(const Op& o, bool full) {
  // a mesh of this thread alone: built, changed, queried, given a state
  Rng r(o.a[0] * 31 + 5); MeshSpec s; s.mk = (int)(o.a[1] % 4); s.nx = (int)r.range(1, 3); s.ny = (int)r.range(1, 2); s.nz = s.mk == MK_2D ? 1 : (int)r.range(1, 2);
  s.seed = (uint64_t)o.a[2]; s.perturb = 1; s.shape = (int)(o.a[3] % 4); s.sub = s.mk == MK_SIMPLE3 ? 0 : (int)(o.a[4] % 4); s.edges = s.mk != MK_SIMPLE3; s.ntiles = full ? (int)r.below(4) : 0; s.halo = (int)r.below(2); s.part = (int)r.below(5);
  Built b = build_mesh(s); World w; w.s = s; w.b = b; w.m = b.mesh; w.dim = b.dim();
  Hash h; Mesh& m = *b.mesh;
  q_counts(h, w, m); q_lists(h, w, m);
  if (full) {
    for (int n = 0; n < (int)m.num_nodes(); ++n) { Point x = m_coord(m, n, w.dim); for (int d = 0; d < w.dim; ++d) x[d] *= 1.5; m.node_set_coordinates(n, x); }
    m.update_geometric_quantities();
    auto st = State::create(b.mesh); auto& v = st->add<double, Mesh, Jali::UniStateVector>("own", b.mesh, Entity_kind::CELL, Entity_type::ALL, 1.0);
    for (int c = 0; c < (int)m.num_cells(); ++c) { v[c] += m.cell_volume(c); h.add_d(v[c]); }
    std::vector<int> cells; for (int c = 0; c < (int)m.num_cells(); c += 2) cells.push_back(c);
    st->add_material("own material", cells); h.add(st->num_material_cells(0));
    for (auto& t : m.tiles()) q_lists(h, w, *t);
  }
  Op all; all.a[5] = 0; for (int k = 0; k < 6; ++k) { all.a[1] = k; q_geom(h, w, m, all, false); }
  return h.h;
}
// temporary sets: built from shared ones, never registered
static void q_algebra(Hash& h, const Mesh& m, const Op& o) {
  auto const& all = m.sets(); if (all.empty()) return;
  std::shared_ptr<MeshSet> a = all[o.a[1] % all.size()]; std::vector<std::shared_ptr<MeshSet>> in;
  for (auto& x : all) if (x->kind() == a->kind() && x != a) in.push_back(x);
  if (in.size() > 2) in.resize(2);
  std::vector<std::shared_ptr<MeshSet>> with(in); with.push_back(a); std::shared_ptr<MeshSet> r;
  switch (o.a[3] % 4) {
    case 0: r = Jali::merge(with, true); break;
    case 1: r = Jali::subtract(a, in, true); break;
    case 2: r = Jali::intersect(with, true); break;
    case 3: r = Jali::complement(with, true); break;
  }
  if (!r) { h.add(77); return; }
  h.add((uint64_t)r->kind()); hash_list(h, r->entities()); hash_list(h, r->entities<Entity_type::PARALLEL_OWNED>()); hash_list(h, r->entities<Entity_type::PARALLEL_GHOST>());
}
static uint64_t query(World& w, const Op& o) {
  Hash h; const Mesh& m = *w.m; const State& S = *w.st; Entity_type q = PTYPES[o.a[2] % 3];
  switch (o.kind) {
    case O_COUNTS: q_counts(h, w, m); h.add(m.space_dimension()); h.add(m.manifold_dimension()); h.add(m.num_tiles()); h.add(m.get_comm() == MPI_COMM_WORLD); h.add((uint64_t)m.mesh_type()); h.add((uint64_t)m.geom_type()); break;
    case O_LISTS: q_lists(h, w, m); break;
    case O_TYPES: for (int k = 0; k < 7; ++k) if (w.has(ALLKINDS[k])) ids(o, (int)m.num_entities(ALLKINDS[k], Entity_type::ALL), [&](int i) { h.add((uint64_t)m.entity_get_type(ALLKINDS[k], i)); });
      ids(o, (int)m.num_cells(), [&](int i) { h.add((uint64_t)m.cell_get_type(i)); }); break;
    case O_CELL: ids(o, (int)m.num_cells(), [&](int i) {
        L x; std::vector<Jali::dir_t> d; m.cell_get_nodes(i, &x); hash_list(h, x);
        if (w.has(Entity_kind::FACE)) { m.cell_get_faces_and_dirs(i, &x, &d, o.a[1] % 2); hash_list(h, x); for (auto e : d) h.add((uint64_t)(e + 5)); h.add(m.cell_get_num_faces(i)); m.cell_get_faces(i, &x); hash_list(h, x);
          m.cell_get_face_adj_cells(i, q, &x); hash_list(h, x); }
        if (w.has(Entity_kind::EDGE)) { m.cell_get_edges(i, &x); hash_list(h, x); if (w.dim == 2) { m.cell_2D_get_edges_and_dirs(i, &x, &d); hash_list(h, x); for (auto e : d) h.add((uint64_t)(e + 5)); } }
        m.cell_get_node_adj_cells(i, q, &x); hash_list(h, x);
        if (w.has(Entity_kind::SIDE)) { m.cell_get_sides(i, &x); hash_list(h, x); }
        if (w.has(Entity_kind::WEDGE)) { m.cell_get_wedges(i, &x); hash_list(h, x); }
        if (w.has(Entity_kind::CORNER)) { m.cell_get_corners(i, &x); hash_list(h, x); m.cell_get_nodes(i, &x); for (int n : x) h.add(m.cell_get_corner_at_node(i, n)); }
        std::vector<Point> c; m.cell_get_coordinates(i, &c); hps(h, c); h.add((uint64_t)m.master_tile_ID_of_cell(i));
      }); break;
    case O_FACE: if (!w.has(Entity_kind::FACE)) break; ids(o, (int)m.num_faces(), [&](int i) {
        L x; std::vector<Jali::dir_t> d; m.face_get_nodes(i, &x); hash_list(h, x); m.face_get_cells(i, q, &x); hash_list(h, x);
        if (w.has(Entity_kind::EDGE) && w.dim > 1) { m.face_get_edges_and_dirs(i, &x, &d, o.a[1] % 2); hash_list(h, x); for (auto e : d) h.add((uint64_t)(e + 5)); }
        std::vector<Point> c; m.face_get_coordinates(i, &c); hps(h, c); h.add((uint64_t)m.master_tile_ID_of_face(i));
        if (w.has(Entity_kind::EDGE) && w.dim > 1) { m.face_get_cells(i, Entity_type::ALL, &x); for (int c0 : x) { L mp; m.face_to_cell_edge_map(i, c0, &mp); hash_list(h, mp); } }
      }); break;
    case O_EDGE: if (!w.has(Entity_kind::EDGE) || w.dim == 1) break; ids(o, (int)m.num_edges(), [&](int i) { int a, b; m.edge_get_nodes(i, &a, &b); h.add(a); h.add(b); h.add((uint64_t)m.master_tile_ID_of_edge(i)); }); break;
    case O_NODE: ids(o, (int)m.num_nodes(), [&](int i) {
        L x; m.node_get_cells(i, q, &x); hash_list(h, x); hp(h, m_coord(m, i, w.dim)); h.add((uint64_t)m.master_tile_ID_of_node(i));
        if (w.has(Entity_kind::FACE)) { L f; m.node_get_faces(i, q, &f); hash_list(h, f); for (int c : x) { m.node_get_cell_faces(i, c, Entity_type::ALL, &f); hash_list(h, f); } }
        if (w.has(Entity_kind::CORNER)) { m.node_get_wedges(i, q, &x); hash_list(h, x); m.node_get_corners(i, q, &x); hash_list(h, x); }
        if (w.dim == 1) { double a; m.node_get_coordinates(i, &a); h.add_d(a); }
        if (w.dim == 3) { std::array<double, 3> a; m.node_get_coordinates(i, &a); for (double d : a) h.add_d(d); }
        if (w.dim == 2) { std::array<double, 2> a; m.node_get_coordinates(i, &a); for (double d : a) h.add_d(d); }
      }); break;
    case O_SIDE: if (w.has(Entity_kind::SIDE)) q_sub(h, w, m, o, 0); break;
    case O_WEDGE: if (w.has(Entity_kind::WEDGE)) q_sub(h, w, m, o, 1); break;
    case O_CORNER: if (w.has(Entity_kind::CORNER)) q_sub(h, w, m, o, 2); break;
    case O_GEOM: q_geom(h, w, m, o, false); break;
    case O_RECOMP: q_geom(h, w, m, o, true); break;
    case O_PIC: if (m.num_nodes() && w.has(Entity_kind::FACE) && w.dim > 1) { Point x = m_coord(m, (int)(o.a[1] % m.num_nodes()), w.dim); x[0] += 0.1; ids(o, (int)m.num_cells(), [&](int i) { h.add(m.point_in_cell(x, i)); h.add(m.point_in_cell(m.cell_centroid(i), i)); }); } break;
    case O_TILE: { auto const& ts = w.m->tiles(); h.add(ts.size()); if (ts.empty()) break; const MeshTile& t = *ts[o.a[0] % ts.size()]; h.add(t.ID()); q_counts(h, w, t); q_lists(h, w, t);
        if (!w.regs.empty()) { const std::string& n = w.regs[o.a[1] % w.regs.size()]; for (int k = 0; k < 7; ++k) { if (!w.has(ALLKINDS[k])) continue;
          try { L x; t.get_set_entities(n, ALLKINDS[k], q, &x); hash_list(h, x); } catch (const Errors::Message& e) { h.add(0xE); } } }
        break; }
    case O_SET: { h.add(m.num_sets()); for (auto k : ALLKINDS) h.add(m.num_sets(k)); for (auto& ms : m.sets(Entity_kind::CELL)) h.add_s(ms->name());
        for (auto& ms : m.sets()) { h.add_s(ms->name()); h.add((uint64_t)ms->kind()); h.add(ms->num_entities()); hash_list(h, ms->entities()); hash_list(h, ms->entities<Entity_type::PARALLEL_OWNED>()); hash_list(h, ms->entities<Entity_type::PARALLEL_GHOST>());
          for (int j = 0; j < 3 && ms->num_entities(); ++j) { int e = ms->entities()[(o.a[0] + j) % ms->num_entities()]; h.add((uint64_t)ms->index_in_set(e)); } }
        q_algebra(h, m, o); break; }
    case O_REGION: { if (w.regs.empty() || !m.num_nodes()) break; const std::string& n = w.regs[o.a[0] % w.regs.size()];
        for (Entity_kind K : {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE}) {
          h.add(m.valid_region_name(n, K)); auto ms = m.find_meshset(n, K); h.add(ms ? 1 : 0); auto m2 = m.find_meshset_from_region(n, K); h.add(m2 ? 1 : 0);
          try { h.add(m.get_set_size(n, K, q)); } catch (const Errors::Message& e) { h.add(0xE); }
          try { L x; m.get_set_entities(n, K, q, &x); hash_list(h, x); } catch (const Errors::Message& e) { h.add(0xE); }
        }
        if (w.gm) { auto gm = m.geometric_model(); h.add(gm->Num_Regions()); auto rg = gm->FindRegion(n); h.add(rg ? (uint64_t)rg->type() : 99); if (rg && rg->type() != JG::Region_type::LABELEDSET && rg->type() != JG::Region_type::LOGICAL) h.add(rg->inside(m_coord(m, (int)(o.a[1] % m.num_nodes()), w.dim))); }
        break; }
    case O_STATE: { h.add(S.size()); for (auto it = S.cbegin(); it != S.cend(); ++it) { h.add_s((*it)->name()); h.add((uint64_t)(*it)->entity_kind()); h.add((uint64_t)(*it)->entity_type()); }
        std::string n = w.vecs.empty() ? "none" : w.vecs[o.a[0] % w.vecs.size()]; auto it = S.find(n); h.add(it == S.cend() ? 1000 : it - S.cbegin()); auto jt = S.find(n, ALLKINDS[o.a[1] % 7], q); h.add(jt == S.cend() ? 1000 : jt - S.cbegin());
        for (int i = 0; i < S.size(); ++i) { h.add_s(S[i]->name()); h.add((uint64_t)S[i]->type()); h.add_s(S[i]->data_type().name()); h.add(S[i]->size()); }
        if (o.a[3] % 3 == 0) { std::ostringstream os; os << S; h.add_s(os.str()); }
        break; }
    case O_VECTOR: q_vector(h, w, S, w.vecs.empty() ? "none" : w.vecs[o.a[0] % w.vecs.size()]); break;
    case O_COPY: { std::string n = w.vecs.empty() ? "none" : w.vecs[o.a[0] % w.vecs.size()]; for (int k = 0; k < 7; ++k) { Jali::UniStateVector<double, Mesh> v; if (w.st->get<double, Mesh, Jali::UniStateVector>(n, w.m, ALLKINDS[k], Entity_type::ALL, &v)) { h.add(v.size()); for (size_t i = 0; i < v.size(); ++i) h.add_d(v[i]); } } break; }
    case O_MAT: { h.add(S.num_materials()); for (int i = 0; i < S.num_materials(); ++i) { h.add_s(S.material_name(i)); h.add(S.material_index_by_name(S.material_name(i))); h.add(S.material_set_by_name(S.material_name(i)) == S.material_set(i)); hash_list(h, S.material_cells(i)); h.add(S.num_material_cells(i)); auto ms = S.material_set(i); h.add(ms->num_entities());
          for (int c = 0; c < (int)m.num_cells(); ++c) h.add((uint64_t)w.st->cell_index_in_material(c, i)); }
        ids(o, (int)m.num_cells(), [&](int c) { hash_list(h, S.cell_materials(c)); h.add(S.num_cell_materials(c)); }); break; }
    case O_GID: for (Entity_kind K : {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE}) if (w.has(K)) ids(o, (int)m.num_entities(K, Entity_type::ALL), [&](int i) { h.add(m.GID(i, K)); }); break;
    case O_BUILD: h.add(own_mesh(o, true)); break;
    case O_MAKESET: h.add(own_mesh(o, false)); break;
  }
  return h.h;
}

static void run(const Plan& p) {
  Quiet quiet;
  int nt = (int)std::min(4l, std::max(1l, p.get("nt", 2)));
  // the sequential answers come from a mesh of their own: the mesh which is
  // queried concurrently has answered nothing before
  std::vector<uint64_t> want(p.ops.size());
  { World t; make_world(t, p); for (size_t i = 0; i < p.ops.size(); ++i) want[i] = query(t, p.ops[i]); }
  World w; make_world(w, p);
  if (p.get("warm", 0)) for (auto& o : p.ops) if (o.a[4] % 2) query(w, o);
  yield_on_alloc = true;
  std::vector<std::function<void()> > bodies; std::vector<uint64_t> got(p.ops.size());
  std::vector<int> started(1, 0);
  for (int t = 0; t < nt; ++t) bodies.push_back([&, t]() {
    for (size_t i = 0; i < p.ops.size(); ++i) {
      if (p.ops[i].task % nt != t) continue;
      for (auto& f : p.faults) if (f.kind == F_STALL && f.where == (int)i) { fault_fired(F_STALL); sleep_ticks(f.n); }
      got[i] = query(w, p.ops[i]);
      trace("thread %d: %s", t, names[p.ops[i].kind]);
      if (got[i] != want[i]) failf("answer", "%s gives another answer while other threads are querying than on its own", names[p.ops[i].kind]);
    }
  });
  SchedCfg c; c.mean_gap = p.get("gap", 200); c.max_steps = 200000000;
  run_tasks(p, c, bodies);
  yield_on_alloc = false;
  // and afterwards the mesh still gives the same answers
  for (size_t i = 0; i < p.ops.size(); ++i) {
    uint64_t g = query(w, p.ops[i]);
    if (g != want[i]) failf("answer-afterwards", "%s gives another answer after the concurrent queries", names[p.ops[i].kind]);
    log(g);
  }
  std::set<int> ts; for (auto& o : p.ops) ts.insert(o.task % nt);
  if (ts.size() > 1 && w.m->num_cells() > 1) note_nontrivial();
  Hash h; for (uint64_t x : want) h.add(x); state_hash(h.h);
  probe("questions answered concurrently", (long)p.ops.size());
}

namespace sim {
extern const Workload workload = {
    "C03", names, NOPS, generate, run,
    "One case is one seed: a mesh (with tiles, sets, a state with vectors and materials), 2..4 threads, the list of questions each of them asks (also recomputed geometry, and meshes of their own being built) and one "
    "interleaving at the granularity of single memory accesses; every answer is compared with the sequential answer of a twin mesh and every pair of accesses is checked for conflicts. "
    "Non-trivial: at least two threads ask and the mesh has more than one cell.",
    "Mesh, MeshTile, MeshSet, State, state vectors, Mesh_simple, geometric model, partitioning, geometry kernels (instrumented)",
    "mesh framework of the general meshes (SimMesh), MPI, threads and locks (simulated)",
    "memory accesses made inside the C++ runtime and C libraries other than memcpy, memmove, memset, memcmp and strlen are not observed|METIS runs as one step",
    false};
}
