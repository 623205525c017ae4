// C04: tile-parallel loops update every owned entity exactly once.
#include "stateref.hpp"
using namespace simm;
using namespace sim;
using Jali::Mesh; using Jali::MeshTile; using Jali::State; using Jali::Data_layout;

enum { O_COUNT = 0, O_GATHER, O_TYPED, O_TILEVEC, O_MATERIAL, O_SCALE, O_COPY, O_REBUILD, NOPS };
static const char* const names[] = {"count-updates", "gather-from-neighbours", "update-typed-data", "update-tile-data", "update-material-data", "scale-by-geometry", "update-through-copy", "tile-list-by-list"};

static void generate(Plan& p, Rng& r) {
  gen_spec(p, r, "", r.chance(1, 2), true); p.cfg["bg"] = r.chance(1, 6); gen_tiles(p, r, "");
  if (p.cfg["mk"] >= 2) { p.cfg.erase("nranks"); p.cfg.erase("rank"); }
  p.cfg["nx"] = r.range(1, 4); p.cfg["ny"] = r.range(1, 3); p.cfg["nz"] = r.range(1, 2);
  if (p.cfg["mk"] == MK_SIMPLE1) p.cfg["nx"] = r.range(2, 10);
  if (r.chance(1, 2)) p.cfg["sub"] = r.range(0, 3);
  p.cfg["ntiles"] = r.chance(1, 8) ? r.range(5, 9) : r.range(2, 4);
  p.cfg["nt"] = r.range(2, 4);
  p.cfg["assign"] = r.below(1000);
  p.cfg["order"] = r.below(2);  // all loops on a tile, or all tiles for a loop
  p.cfg["gap"] = r.chance(1, 3) ? r.range(3, 40) : r.range(40, 3000);
  int n = (int)r.range(1, 10);
  for (int i = 0; i < n; ++i) { Op o; o.kind = (int)r.below(NOPS); for (long& a : o.a) a = r.below(100000); p.ops.push_back(o); }
  if (r.chance(1, 3)) { Fault f; f.kind = F_STALL; f.where = (int)r.below(p.cfg["nt"]); f.k = r.below(n); f.n = r.range(10, 20000); p.faults.push_back(f); }
}

typedef Jali::UniStateVector<int, Mesh> IVec;
typedef Jali::UniStateVector<double, Mesh> DVec;
struct World {
  MeshSpec s; Built b; std::shared_ptr<Mesh> m; std::shared_ptr<State> st; int dim; std::vector<int> kinds;  // requested kinds (index into ALLKINDS)
};
static std::string nm(const char* p, int k) { return std::string(p) + KINDNAME[k]; }
static void make_world(World& w, const Plan& p) {
  w.s = get_spec(p, ""); w.b = build_mesh(w.s); w.m = w.b.mesh; w.dim = w.b.dim();
  w.st = State::create(w.m);
  for (int k = 0; k < 7; ++k) if (spec_has(w.s, ALLKINDS[k])) w.kinds.push_back(k);
  for (int k : w.kinds) {
    w.st->add<int, Mesh, Jali::UniStateVector>(nm("count ", k), w.m, ALLKINDS[k], Entity_type::ALL, 0);
    w.st->add<double, Mesh, Jali::UniStateVector>(nm("out ", k), w.m, ALLKINDS[k], Entity_type::ALL, 0.0);
    auto& v = w.st->add<double, Mesh, Jali::UniStateVector>(nm("in ", k), w.m, ALLKINDS[k], Entity_type::ALL, 0.0);
    for (size_t i = 0; i < v.size(); ++i) v[i] = 1.0 + 0.01 * (double)((i * 7919) % 101);
    w.st->add<A3_, Mesh, Jali::UniStateVector>(nm("array ", k), w.m, ALLKINDS[k], Entity_type::ALL, A3_{{0, 0, 0}});
    w.st->add<Pt, Mesh, Jali::UniStateVector>(nm("struct ", k), w.m, ALLKINDS[k], Entity_type::ALL, Pt());
    w.st->add<signed char, Mesh, Jali::UniStateVector>(nm("byte ", k), w.m, ALLKINDS[k], Entity_type::ALL, (signed char)0);
    for (auto& t : w.m->tiles()) {
      w.st->add<double, MeshTile, Jali::UniStateVector>(nm("tile all ", k), t, ALLKINDS[k], Entity_type::ALL, (double)t->ID());
      w.st->add<double, MeshTile, Jali::UniStateVector>(nm("tile owned ", k), t, ALLKINDS[k], Entity_type::PARALLEL_OWNED, (double)t->ID());
    }
  }
  Rng g(p.get("assign", 0) * 17 + 5);
  int nmat = (int)g.below(4);
  for (int i = 0; i < nmat; ++i) { std::vector<int> cells; for (int c = 0; c < (int)w.m->num_cells(); ++c) if (g.chance(2, 3)) cells.push_back(c); w.st->add_material("mat" + std::to_string(i), cells); }
  if (nmat) {
    w.st->add<double, Mesh, Jali::MultiStateVector>("per material", w.m, Entity_kind::CELL, Entity_type::ALL);
    for (auto& t : w.m->tiles()) (void)t;
  }
}
template <class T> static Jali::UniStateVector<T, Mesh>& vec(const World& w, const std::string& n, int k) {
  const State& S = *w.st;
  auto it = S.find<T, Mesh, Jali::UniStateVector>(n, w.m, ALLKINDS[k], Entity_type::ALL);
  if (it == S.cend()) failf("not-found", "vector \"%s\" is not found", n.c_str());
  return *uni<T, Mesh>(*it);
}
static Jali::UniStateVector<double, MeshTile>& tvec(const World& w, const std::string& n, const std::shared_ptr<MeshTile>& t, int k, Entity_type q) {
  const State& S = *w.st;
  auto it = S.find<double, MeshTile, Jali::UniStateVector>(n, t, ALLKINDS[k], q);
  if (it == S.cend()) failf("not-found", "vector \"%s\" of a tile is not found", n.c_str());
  return *uni<double, MeshTile>(*it);
}
// calls f(i) for the tile's owned entities, the way users write the loop
template <class F> static void owned(const MeshTile& t, int k, F f) {
  using ET = Entity_type;
  switch (ALLKINDS[k]) {
    case Entity_kind::NODE: for (auto const& e : t.nodes<ET::PARALLEL_OWNED>()) f(e); break;
    case Entity_kind::EDGE: for (auto const& e : t.edges<ET::PARALLEL_OWNED>()) f(e); break;
    case Entity_kind::FACE: for (auto const& e : t.faces<ET::PARALLEL_OWNED>()) f(e); break;
    case Entity_kind::SIDE: for (auto const& e : t.sides<ET::PARALLEL_OWNED>()) f(e); break;
    case Entity_kind::WEDGE: for (auto const& e : t.wedges<ET::PARALLEL_OWNED>()) f(e); break;
    case Entity_kind::CORNER: for (auto const& e : t.corners<ET::PARALLEL_OWNED>()) f(e); break;
    default: for (auto const& e : t.cells<ET::PARALLEL_OWNED>()) f(e); break;
  }
}
static double geom(const World& w, int k, int i) {
  const Mesh& m = *w.m;
  switch (ALLKINDS[k]) {
    case Entity_kind::NODE: { Point x = m_coord(m, i, w.dim); double s = 1; for (int d = 0; d < w.dim; ++d) s += x[d] * (d + 1); return s; }
    case Entity_kind::EDGE: return m.edge_length(i);
    case Entity_kind::FACE: return m.face_area(i);
    case Entity_kind::SIDE: return m.side_volume(i);
    case Entity_kind::WEDGE: return m.wedge_volume(i);
    case Entity_kind::CORNER: return m.corner_volume(i);
    default: return m.cell_volume(i);
  }
}
// what a user reads around an entity
static double gather(const World& w, int k, int i) {
  const Mesh& m = *w.m; double s = 0; L x, y;
  const auto& in = vec<double>(w, nm("in ", k), k);
  auto cells = [&]() -> const DVec& { return vec<double>(w, nm("in ", 6), 6); };
  switch (ALLKINDS[k]) {
    case Entity_kind::NODE: { m.node_get_cells(i, Entity_type::ALL, &x); auto& c = cells(); for (int e : sorted(x)) s += c[e]; break; }
    case Entity_kind::EDGE: if (w.dim > 1) { int a, b; m.edge_get_nodes(i, &a, &b); auto& n = vec<double>(w, nm("in ", 0), 0); s += n[a] + n[b]; } break;
    case Entity_kind::FACE: { m.face_get_cells(i, Entity_type::ALL, &x); auto& c = cells(); for (int e : sorted(x)) s += c[e]; break; }
    case Entity_kind::SIDE: { int op = m.side_get_opposite_side(i); if (op >= 0) s += in[op]; s += cells()[m.side_get_cell(i)]; break; }
    case Entity_kind::WEDGE: { int op = m.wedge_get_opposite_wedge(i); if (op >= 0) s += in[op]; s += in[m.wedge_get_adjacent_wedge(i)]; break; }
    case Entity_kind::CORNER: { m.corner_get_wedges(i, &x); s += (double)x.size() + cells()[m.corner_get_cell(i)]; break; }
    default: { m.cell_get_node_adj_cells(i, Entity_type::ALL, &x); for (int e : sorted(x)) s += in[e]; if (spec_has(w.s, Entity_kind::FACE)) { m.cell_get_face_adj_cells(i, Entity_type::ALL, &y); for (int e : sorted(y)) s += 2 * in[e]; } break; }
  }
  return s + in[i];
}
// one loop over one tile
static void loop(World& w, const Op& o, const std::shared_ptr<MeshTile>& t, size_t opi) {
  int k = w.kinds[o.a[0] % w.kinds.size()]; double x = 1.0 + (double)(o.a[1] % 7);
  switch (o.kind) {
    case O_COUNT: { auto& c = vec<int>(w, nm("count ", k), k); owned(*t, k, [&](int i) { c[i] += 1; }); break; }
    case O_GATHER: { auto& v = vec<double>(w, nm("out ", k), k); owned(*t, k, [&](int i) { v[i] = 0.5 * v[i] + gather(w, k, i) * x; }); break; }
    case O_TYPED: { auto& a = vec<A3_>(w, nm("array ", k), k); auto& b = vec<Pt>(w, nm("struct ", k), k); auto& c = vec<signed char>(w, nm("byte ", k), k);
        owned(*t, k, [&](int i) { a[i][o.a[2] % 3] += x; b[i].x += x; b[i].tag++; c[i] = (signed char)(c[i] + 1); }); break; }
    case O_TILEVEC: { auto& a = tvec(w, nm("tile all ", k), t, k, Entity_type::ALL); auto& b = tvec(w, nm("tile owned ", k), t, k, Entity_type::PARALLEL_OWNED);
        auto& out = vec<double>(w, nm("out ", k), k); const auto& in = vec<double>(w, nm("in ", k), k);
        std::vector<int> all = entities(*t, ALLKINDS[k], Entity_type::ALL);
        if (all.size() != a.size()) failf("tile-data-size", "data of tile %d on its %ss have %zu values for %zu entities", t->ID(), KINDNAME[k], (size_t)a.size(), all.size());
        for (size_t i = 0; i < all.size(); ++i) a[i] = a[i] * 0.5 + in[all[i]] * x;
        size_t j = 0; owned(*t, k, [&](int i) { b[j] += in[i] * x; out[i] += b[j]; ++j; });
        if (j != b.size()) failf("tile-data-size", "data of tile %d on its owned %ss have %zu values for %zu entities", t->ID(), KINDNAME[k], (size_t)b.size(), j);
        break; }
    case O_MATERIAL: { const State& S = *w.st; if (!S.num_materials()) break;
        auto it = S.find<double, Mesh, Jali::MultiStateVector>("per material", w.m, Entity_kind::CELL, Entity_type::ALL); auto& v = *multi<double, Mesh>(*it);
        owned(*t, 6, [&](int c) { double s = 0; for (int m : S.cell_materials(c)) { if (o.a[3] % 2) v(m, c) += x; else v(c, m, Data_layout::CELL_CENTRIC) += x; s += v(m, c) + static_cast<const Jali::MultiStateVector<double, Mesh>&>(v)(m, c); } vec<double>(w, nm("out ", 6), 6)[c] += s; }); break; }
    case O_SCALE: { auto& v = vec<double>(w, nm("out ", k), k); owned(*t, k, [&](int i) { v[i] = v[i] * x + geom(w, k, i); }); break; }
    case O_COPY: { DVec v; v = vec<double>(w, nm("out ", k), k); owned(*t, k, [&](int i) { v[i] += (double)i; }); break; }  // an assigned vector shares the data
    default: { auto& c = vec<int>(w, nm("count ", k), k); std::vector<int> e = entities(*t, ALLKINDS[k], Entity_type::PARALLEL_OWNED); for (int i : e) c[i] += 1; break; }
  }
  (void)opi;
}
static uint64_t result(const World& w, std::vector<std::pair<std::string, std::vector<double> > >* out) {
  for (int k : w.kinds) {
    auto push = [&](const std::string& n, std::vector<double> v) { out->push_back(std::make_pair(n, v)); };
    { std::vector<double> d; auto& v = vec<int>(w, nm("count ", k), k); for (size_t i = 0; i < v.size(); ++i) d.push_back(v[i]); push(nm("count ", k), d); }
    for (const char* q : {"out ", "in "}) { std::vector<double> d; auto& v = vec<double>(w, nm(q, k), k); for (size_t i = 0; i < v.size(); ++i) d.push_back(v[i]); push(nm(q, k), d); }
    { std::vector<double> d; auto& v = vec<A3_>(w, nm("array ", k), k); for (size_t i = 0; i < v.size(); ++i) for (double x : v[i]) d.push_back(x); push(nm("array ", k), d); }
    { std::vector<double> d; auto& v = vec<Pt>(w, nm("struct ", k), k); for (size_t i = 0; i < v.size(); ++i) { d.push_back(v[i].x); d.push_back(v[i].tag); } push(nm("struct ", k), d); }
    { std::vector<double> d; auto& v = vec<signed char>(w, nm("byte ", k), k); for (size_t i = 0; i < v.size(); ++i) d.push_back(v[i]); push(nm("byte ", k), d); }
    for (auto& t : w.m->tiles()) for (int q = 0; q < 2; ++q) { std::vector<double> d; auto& v = tvec(w, nm(q ? "tile owned " : "tile all ", k), t, k, q ? Entity_type::PARALLEL_OWNED : Entity_type::ALL); for (size_t i = 0; i < v.size(); ++i) d.push_back(v[i]); push(nm(q ? "tile owned " : "tile all ", k) + " of tile " + std::to_string(t->ID()), d); }
  }
  const State& S = *w.st;
  for (int m = 0; m < S.num_materials(); ++m) { std::vector<double> d; auto it = S.find<double, Mesh, Jali::MultiStateVector>("per material", w.m, Entity_kind::CELL, Entity_type::ALL); auto& v = *multi<double, Mesh>(*it); for (int c : S.material_cells(m)) d.push_back(v(m, c)); out->push_back(std::make_pair("per material " + std::to_string(m), d)); }
  Hash h; for (auto& x : *out) { h.add_s(x.first); for (double d : x.second) h.add_d(d); }
  return h.h;
}

static void run(const Plan& p) {
  Quiet quiet;
  int nt = (int)std::min(4l, std::max(1l, p.get("nt", 2)));
  std::vector<std::pair<std::string, std::vector<double> > > want, got;
  std::vector<int> loops(7, 0);
  { World t; make_world(t, p);
    for (size_t i = 0; i < p.ops.size(); ++i) for (auto& tl : t.m->tiles()) loop(t, p.ops[i], tl, i);
    result(t, &want); }
  World w; make_world(w, p);
  for (auto& o : p.ops) if (o.kind == O_COUNT || o.kind == O_REBUILD) loops[w.kinds[o.a[0] % w.kinds.size()]]++;
  const auto& tiles = w.m->tiles(); int ntl = (int)tiles.size();
  Rng g(p.get("assign", 0) + 99); std::vector<std::vector<int> > mine(nt);
  std::vector<int> ord; for (int i = 0; i < ntl; ++i) ord.push_back(i); g.shuffle(ord);
  for (int i = 0; i < ntl; ++i) mine[i % nt].push_back(ord[i]);
  yield_on_alloc = true;
  std::vector<std::function<void()> > bodies;
  for (int t = 0; t < nt; ++t) bodies.push_back([&, t]() {
    auto one = [&](size_t i, int tl) {
      for (auto& f : p.faults) if (f.kind == F_STALL && f.where % nt == t && f.k == (long)i) { fault_fired(F_STALL); sleep_ticks(f.n); }
      trace("thread %d: %s on tile %d", t, names[p.ops[i].kind], tl);
      loop(w, p.ops[i], w.m->tiles()[tl], i);
    };
    if (p.get("order", 0) % 2) { for (int tl : mine[t]) for (size_t i = 0; i < p.ops.size(); ++i) one(i, tl); }
    else for (size_t i = 0; i < p.ops.size(); ++i) for (int tl : mine[t]) one(i, tl);
  });
  SchedCfg c; c.mean_gap = p.get("gap", 200); c.max_steps = 200000000;
  run_tasks(p, c, bodies);
  yield_on_alloc = false;
  // exactly once
  for (int k : w.kinds) {
    auto& v = vec<int>(w, nm("count ", k), k);
    std::set<int> own; for (int e : entities(*w.m, ALLKINDS[k], Entity_type::PARALLEL_OWNED)) own.insert(e);
    std::set<int> by; for (auto& t : tiles) for (int e : entities(*t, ALLKINDS[k], Entity_type::PARALLEL_OWNED)) by.insert(e);
    for (int i = 0; i < (int)v.size(); ++i) {
      int x = by.count(i) ? loops[k] : 0;
      if (v[i] != x) failf("exactly-once", "%s %d was updated %d times by %d loops", KINDNAME[k], i, v[i], x);
      if (ntl && ALLKINDS[k] == Entity_kind::CELL && own.count(i) != by.count(i)) failf("exactly-once", "cell %d is %s by the process and %s by a tile", i, own.count(i) ? "owned" : "not owned", by.count(i) ? "owned" : "not owned");
    }
  }
  uint64_t h = result(w, &got);
  if (got.size() != want.size()) failf("result", "%zu vectors, the sequential loops have %zu", got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i) {
    if (got[i].first != want[i].first || got[i].second.size() != want[i].second.size()) failf("result", "vector \"%s\" differs in size from the sequential loops", got[i].first.c_str());
    for (size_t j = 0; j < got[i].second.size(); ++j) if (!(got[i].second[j] == want[i].second[j])) failf("result", "value %zu of \"%s\" is %g, the sequential loops give %g", j, got[i].first.c_str(), got[i].second[j], want[i].second[j]);
  }
  log(h); state_hash(h);
  int busy = 0; for (auto& m : mine) busy += !m.empty();
  if (busy > 1 && w.m->num_cells() > 1) note_nontrivial();
  if (busy > 1) probe("loops over tiles in parallel", (long)p.ops.size());
}

namespace sim {
extern const Workload workload = {
    "C04", names, NOPS, generate, run,
    "One case is one seed: a tiled mesh with state data on every kind of entity, on tiles and per material, 2..4 threads which share the tiles between them, a list of update loops over owned entities (counting, gathering from neighbours, "
    "typed data, tile data, material data), stalled threads and one interleaving at the granularity of single memory accesses; counts, results and conflicts are checked, the sequential loops on a twin world are the reference. "
    "Non-trivial: at least two threads have a tile and the mesh has more than one cell.",
    "Mesh, MeshTile, State, state vectors, Mesh_simple, tile partitioning, geometry kernels (instrumented)",
    "mesh framework of the general meshes (SimMesh), MPI, threads and locks (simulated)",
    "memory accesses made inside the C++ runtime and C libraries other than memcpy, memmove, memset, memcmp and strlen are not observed",
    false};
}
