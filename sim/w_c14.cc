// C14: running out of memory is reported, harmless and leaves no trace.
//
// Two worlds are driven through the same history.  In the reference world no
// allocation fails; it tells how many allocations an operation makes and what
// it must lead to.  In the other one the operation first runs out of memory
// once or several times, each time at another allocation, then succeeds.
#include "stateref.hpp"
#include "GeometricModel.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "LogicalRegion.hh"
#include "LabeledSetRegion.hh"
using namespace simm;
using namespace sim;
namespace JG = JaliGeometry;
using Jali::Mesh; using Jali::MeshTile; using Jali::State; using Jali::MeshSet;
typedef std::shared_ptr<MeshSet> SetPtr;

enum { O_MESH = 0, O_TILE, O_SET, O_SETOP, O_REGION, O_INITSETS, O_STATE, O_ADD, O_ADDMULTI, O_COPYSV, O_MOVE, O_UPDATE, O_QUERY, O_TILEQUERY, O_FIND, NOPS };
static const char* const names[] = {"construct-mesh", "make-tile", "make-set", "set-operation", "region-set", "init-sets", "create-state", "add-vector", "add-multi-vector", "copy-vector", "move-nodes", "update-geometry", "queries", "tile-queries", "find-vector"};

static const long SITEWISE = 2000000;  // fault positions from here on name an allocation site, not a position

static void generate(Plan& p, Rng& r) {
  gen_spec(p, r, "", r.chance(1, 2), true); p.cfg["bg"] = r.chance(1, 6); gen_tiles(p, r, "");
  if (r.chance(1, 2)) p.cfg["ntiles"] = 0;
  p.cfg["gm"] = r.chance(2, 3);
  p.cfg["heap"] = r.below(5);
  int n = (int)r.range(2, 14);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = r.chance(1, 6) ? O_MESH : (int)r.below(NOPS);
    for (long& a : o.a) a = r.below(100000);
    p.ops.push_back(o);
    int nf = r.chance(1, 6) ? 0 : (int)r.range(1, 4);
    for (int j = 0; j < nf; ++j) { Fault f; f.kind = F_ALLOC; f.where = i; f.k = r.chance(1, 2) ? SITEWISE + r.below(3000) : r.chance(1, 3) ? r.below(12) : r.below(1000000); f.n = r.chance(1, 4) ? r.range(2, 40) : 1; p.faults.push_back(f); }
  }
}

// ------------------------------------------------------------ fingerprint
typedef std::map<std::string, std::vector<double> > FP;
static void put(std::vector<double>& v, const L& l) { v.push_back((double)l.size()); for (int x : l) v.push_back(x); }
template <class V> void put_v(std::vector<double>& v, const V& l) { v.push_back((double)l.size()); for (auto x : l) v.push_back((double)x); }

static void fp_topology(const Mesh& m, const MeshSpec& s, std::vector<double>& v) {
  L l, l2; int dim = (int)m.space_dimension();
  for (Entity_kind k : ALLKINDS) for (Entity_type t : PTYPES) { if (!spec_has(s, k)) continue; put(v, entities(m, k, t)); v.push_back(m.num_entities(k, t)); }
  bool F = spec_has(s, Entity_kind::FACE), E = spec_has(s, Entity_kind::EDGE) && dim > 1;
  for (int c = 0; c < (int)m.num_cells(); ++c) {
    v.push_back((double)m.cell_get_type(c)); v.push_back((double)m.entity_get_type(Entity_kind::CELL, c)); v.push_back(m.GID(c, Entity_kind::CELL));
    m.cell_get_nodes(c, &l); put(v, l);
    for (Entity_type t : PTYPES) { m.cell_get_node_adj_cells(c, t, &l); put(v, l); }
    if (F) { std::vector<Jali::dir_t> d; m.cell_get_faces_and_dirs(c, &l, &d); put(v, l); put_v(v, d); m.cell_get_face_adj_cells(c, Entity_type::ALL, &l); put(v, l); }
    if (E) { m.cell_get_edges(c, &l); put(v, l); }
    if (s.sub >= 1) { m.cell_get_sides(c, &l); put(v, l); }
    if (s.sub >= 2) { m.cell_get_wedges(c, &l); put(v, l); }
    if (s.sub >= 3) { m.cell_get_corners(c, &l); put(v, l); for (int k : l) { m.corner_get_wedges(k, &l2); put(v, l2); v.push_back(m.corner_get_node(k)); v.push_back(m.corner_get_cell(k)); } }
    v.push_back(m.master_tile_ID_of_cell(c));
  }
  if (F) for (int f = 0; f < (int)m.num_faces(); ++f) { m.face_get_nodes(f, &l); put(v, l); m.face_get_cells(f, Entity_type::ALL, &l); put(v, l); v.push_back(m.GID(f, Entity_kind::FACE)); v.push_back(m.master_tile_ID_of_face(f)); }
  if (E) for (int e = 0; e < (int)m.num_edges(); ++e) { int a = 0, b = 0; m.edge_get_nodes(e, &a, &b); v.push_back(a); v.push_back(b); v.push_back(m.master_tile_ID_of_edge(e)); }
  for (int n = 0; n < (int)m.num_nodes(); ++n) { m.node_get_cells(n, Entity_type::ALL, &l); put(v, l); v.push_back(m.GID(n, Entity_kind::NODE)); v.push_back(m.master_tile_ID_of_node(n)); Point q; m.node_get_coordinates(n, &q); for (int d = 0; d < dim; ++d) v.push_back(q[d]); }
  if (s.sub >= 1) for (int i = 0; i < (int)m.num_sides(); ++i) { v.push_back(m.side_get_cell(i)); v.push_back(m.side_get_face(i)); v.push_back(m.side_get_edge(i)); v.push_back(m.side_get_node(i, 0)); v.push_back(m.side_get_opposite_side(i)); }
  if (s.sub >= 2) for (int i = 0; i < (int)m.num_wedges(); ++i) { v.push_back(m.wedge_get_cell(i)); v.push_back(m.wedge_get_side(i)); v.push_back(m.wedge_get_node(i)); v.push_back(m.wedge_get_opposite_wedge(i)); v.push_back(m.wedge_get_adjacent_wedge(i)); if (s.sub >= 3) v.push_back(m.wedge_get_corner(i)); }
}
static void fp_tiles(Mesh& m, const MeshSpec& s, FP& f) {
  auto& v = f["tiles"];
  v.push_back(m.num_tiles());
  for (auto& t : m.tiles()) {
    if (!t) fail("null-tile", "the mesh lists a tile which is not there");
    v.push_back(t->ID());
    for (Entity_kind k : ALLKINDS) if (spec_has(s, k)) for (Entity_type pt : PTYPES) put(v, entities(*t, k, pt));
  }
}
static std::string set_key(const MeshSet& s) { return "set " + std::to_string((int)s.kind()) + " " + s.name(); }
static void fp_set(const MeshSet& s, std::vector<double>& v) {
  put(v, sorted(s.entities<Entity_type::PARALLEL_OWNED>())); put(v, sorted(s.entities<Entity_type::PARALLEL_GHOST>())); put(v, sorted(s.entities<Entity_type::ALL>()));
  for (int e : sorted(s.entities<Entity_type::ALL>())) { int i = s.index_in_set(e); v.push_back(i >= 0 && i < (int)s.entities<Entity_type::ALL>().size() && s.entities<Entity_type::ALL>()[i] == e); }
}
static void fp_mesh(Mesh& m, const MeshSpec& s, FP& f, bool geometry) {
  fp_topology(m, s, f["topology"]);
  if (geometry) { auto d = geodump(m, s, false, false); auto& v = f["geometry"]; for (auto& i : d.v) v.push_back(i.v); }
  fp_tiles(m, s, f);
  std::map<std::string, int> n;
  for (auto& q : m.sets()) { if (!q) fail("null-set", "the mesh lists a set which is not there"); std::string k = set_key(*q); int c = n[k]++; fp_set(*q, f[k + (c ? " #" + std::to_string(c) : "")]); }
}

struct W {
  Built b; JG::GeometricModelPtr gm = nullptr; std::shared_ptr<JG::GeometricModel> gmown; std::vector<std::shared_ptr<JG::Region> > regs;
  std::vector<SetPtr> held;
  std::shared_ptr<State> st;
  struct Vec { int T; bool multi; bool tile; SVP p; };
  std::vector<Vec> vecs;
  std::vector<double> result;      // what the last operation returned
  std::shared_ptr<Mesh> extra; MeshSpec extraspec;
};
static void fp_vec(const W::Vec& r, std::vector<double>& v) {
  with_type(r.T, [&](auto tg) {
    typedef typename decltype(tg)::type T;
    auto one = [&](auto dt) {
      typedef typename decltype(dt)::type D; VD x;
      if (r.multi) { auto* q = multi<T, D>(r.p); if (!q) fail("wrong-type", "a state vector is not of the type it was added with"); for (size_t m = 0; m < q->size(); ++m) { v.push_back(-7); for (auto it = q->cbegin((int)m); it != q->cend((int)m); ++it) TT<T>::flat(*it, v); } }
      else { auto* q = uni<T, D>(r.p); if (!q) fail("wrong-type", "a state vector is not of the type it was added with"); v.push_back(q->size()); for (size_t i = 0; i < q->size(); ++i) TT<T>::flat((*q)[(int)i], v); }
    };
    if (r.tile) one(Dom<MeshTile>()); else one(Dom<Mesh>());
  });
}
static FP fingerprint(W& w, bool geometry) {
  AllocPause ap; FP f;
  fp_mesh(*w.b.mesh, w.b.spec, f, geometry);
  for (size_t i = 0; i < w.held.size(); ++i) fp_set(*w.held[i], f["held set " + std::to_string(i)]);
  auto& v = f["state"]; v.push_back(w.st ? w.st->size() : -1);
  if (w.st) { for (auto it = w.st->names_begin(); it != w.st->names_end(); ++it) { Hash h; h.add_s(*it); v.push_back((double)(h.h >> 12)); }
    v.push_back(w.st->num_materials()); for (int m = 0; m < w.st->num_materials(); ++m) put(v, sorted(w.st->material_cells(m)));
    for (Entity_kind k : ALLKINDS) v.push_back((double)(w.st->entity_end(k) - w.st->entity_begin(k))); }
  for (size_t i = 0; i < w.vecs.size(); ++i) fp_vec(w.vecs[i], f["vector " + std::to_string(i)]);
  if (w.extra) { FP e; fp_mesh(*w.extra, w.extraspec, e, geometry); for (auto& x : e) f["new mesh " + x.first] = x.second; }
  return f;
}
static bool same(const std::vector<double>& a, const std::vector<double>& b, size_t* at) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i] && !(a[i] != a[i] && b[i] != b[i])) { *at = i; return false; }
  *at = std::min(a.size(), b.size()); return a.size() == b.size();
}
static bool is_set(const std::string& k) { return k.compare(0, 4, "set ") == 0; }
// now == ref, except that sets made on demand may have been added (they must be those of the finished world)
static void unchanged(const FP& before, const FP& now, const FP& finished, const char* what) {
  for (auto& x : before) {
    auto it = now.find(x.first); size_t at = 0;
    if (it == now.end()) failf("contents-changed", "%s failed: %s is gone", what, x.first.c_str());
    if (!same(x.second, it->second, &at)) failf("contents-changed", "%s failed: %s changed (position %zu, %zu values, had %zu)", what, x.first.c_str(), at, it->second.size(), x.second.size());
  }
  for (auto& x : now) if (!before.count(x.first)) {
    auto it = finished.find(x.first); size_t at = 0;
    if (!is_set(x.first) || it == finished.end()) failf("left-behind", "%s failed: left %s behind", what, x.first.c_str());
    if (!same(x.second, it->second, &at)) failf("left-behind", "%s failed: left an incomplete %s behind", what, x.first.c_str());
  }
}
static void equal(const FP& a, const FP& ref, const char* what) {
  size_t at = 0;
  for (auto& x : ref) {
    auto it = a.find(x.first);
    if (it == a.end()) failf("retry-differs", "%s after failures: %s is missing", what, x.first.c_str());
    if (!same(x.second, it->second, &at)) failf("retry-differs", "%s after failures: %s differs at position %zu (%zu values, expected %zu)", what, x.first.c_str(), at, it->second.size(), x.second.size());
  }
  for (auto& x : a) if (!ref.count(x.first)) failf("retry-differs", "%s after failures: there is an unexpected %s", what, x.first.c_str());
}

static Point pt(int dim, const X3& v) { Point p(dim); if (dim == 1) p.set(v[0]); else if (dim == 2) p.set(v[0], v[1]); else p.set(v[0], v[1], v[2]); return p; }
static std::shared_ptr<JG::GeometricModel> make_gm(int dim, const std::vector<X3>& X, Rng g, std::vector<std::shared_ptr<JG::Region> >& rs) {
  auto node = [&]() { return X[g.below((long)X.size())]; };
  X3 a = node(), b = node(), c = node(); for (int d = 0; d < 3; ++d) { a[d] -= 0.01; b[d] += 0.3; }
  X3 nrm = {{1, 0, 0}};
  rs.push_back(std::make_shared<JG::BoxRegion>("box one", 1, pt(dim, a), pt(dim, b), JG::LifeCycle_type::PERMANENT));
  rs.push_back(std::make_shared<JG::BoxRegion>("another box with quite a long name", 2, pt(dim, c), pt(dim, b), JG::LifeCycle_type::PERMANENT));
  rs.push_back(std::make_shared<JG::PlaneRegion>("plane", 3, pt(dim, c), pt(dim, nrm), JG::LifeCycle_type::PERMANENT));
  rs.push_back(std::make_shared<JG::PointRegion>("point", 4, pt(dim, a), JG::LifeCycle_type::PERMANENT));
  rs.push_back(std::make_shared<JG::LogicalRegion>("both", 5, JG::Bool_type::UNION, std::vector<std::string>{"box one", "another box with quite a long name"}, JG::LifeCycle_type::PERMANENT));
  rs.push_back(std::make_shared<JG::LogicalRegion>("rest", 6, JG::Bool_type::COMPLEMENT, std::vector<std::string>{"both", "box one"}, JG::LifeCycle_type::PERMANENT));
  rs.push_back(std::make_shared<JG::LogicalRegion>("meet", 7, JG::Bool_type::INTERSECT, std::vector<std::string>{"box one", "rest"}, JG::LifeCycle_type::PERMANENT));
  rs.push_back(std::make_shared<JG::LogicalRegion>("less", 8, JG::Bool_type::SUBTRACT, std::vector<std::string>{"rest", "box one"}, JG::LifeCycle_type::PERMANENT));
  auto gm = std::make_shared<JG::GeometricModel>(std::max(dim, 2));
  for (auto& r : rs) gm->Add_Region(r.get());
  return gm;
}
static const char* const REG[] = {"box one", "another box with quite a long name", "plane", "point", "both", "rest", "meet", "less"};

// One operation on one world.  Only calls into the library may run out of memory.
static void apply(W& w, const Op& o, const Plan& p) {
  Mesh& m = *w.b.mesh; const Mesh& cm = m;
  std::vector<double> res; Rng g(o.a[0] + 5);
  int nc = w.b.ref.nc_();
  switch (o.kind) {
    case O_MESH: {
      MeshSpec s;
      { AllocPause ap; Plan q; Rng h(o.a[1]); gen_spec(q, h, "", h.chance(1, 2), true); gen_tiles(q, h, ""); if (h.chance(1, 2)) q.cfg["ntiles"] = 0; s = get_spec(q, "");
        if (s.mk == MK_3D) { s.nx = std::min(s.nx, 2); s.ny = std::min(s.ny, 2); s.nz = std::min(s.nz, 2); } }
      const std::function<void(GMesh&)> none;
      Built nb;
      { nb = build_mesh(s, nullptr, none); }
      AllocPause ap;
      w.extraspec = s; w.extra = nb.mesh; break;
    }
    case O_TILE: {
      std::vector<int> cells; int halo = (int)(o.a[3] % 3); const MeshSpec& s = w.b.spec;
      { AllocPause ap; for (int c = 0; c < nc; ++c) if (!w.b.ref.cghost[c] && cm.master_tile_ID_of_cell(c) == -1 && g.below(3)) cells.push_back(c); }
      if (cells.empty()) break;
      auto t = make_meshtile(m, cells, halo, spec_has(s, Entity_kind::FACE), spec_has(s, Entity_kind::EDGE), s.sub >= 1, s.sub >= 2, s.sub >= 3);
      AllocPause ap; res.push_back(t ? t->ID() : -5); break;
    }
    case O_SET: {
      std::vector<int> lo, lg; Entity_kind k; std::string nm;
      { AllocPause ap; std::vector<Entity_kind> ks; for (auto q : ALLKINDS) if (spec_has(w.b.spec, q)) ks.push_back(q); k = ks[o.a[2] % ks.size()];
        for (int e : entities(m, k, Entity_type::ALL)) if (g.below(2)) { if (cm.entity_get_type(k, e) == Entity_type::PARALLEL_OWNED) lo.push_back(e); else if (cm.entity_get_type(k, e) == Entity_type::PARALLEL_GHOST) lg.push_back(e); }
        nm = std::string(o.a[3] % 2 ? "user set number " : "u") + std::to_string(w.held.size()); }
      auto s = Jali::make_meshset(nm, m, k, lo, lg, o.a[4] % 2);
      AllocPause ap; if (!s) fail("null-set", "no set was made"); w.held.push_back(s); break;
    }
    case O_SETOP: {
      if (w.held.empty()) break;
      std::vector<SetPtr> in; SetPtr first = w.held[o.a[1] % w.held.size()], r;
      { AllocPause ap; in.push_back(first); for (auto& h : w.held) if (h->kind() == first->kind() && g.below(2)) in.push_back(h); }
      bool temp = o.a[3] % 2;
      switch (o.a[2] % 5) { case 0: r = Jali::merge(in, temp); break; case 1: r = Jali::subtract(first, in, temp); break; case 2: r = Jali::intersect(in, temp); break; case 3: r = Jali::complement(in, temp); break; default: r = std::make_shared<MeshSet>(*first); }
      AllocPause ap; if (!r) fail("null-set", "a set operation returned nothing"); w.held.push_back(r); break;
    }
    case O_REGION: {
      if (!w.gm) break;
      Entity_kind k = o.a[2] % 2 ? Entity_kind::CELL : Entity_kind::NODE; std::string nm; { AllocPause ap; nm = REG[o.a[3] % 8]; }
      if (o.a[4] % 3 == 2) {
        L l; m.get_set_entities(nm, k, PTYPES[o.a[5] % 3], &l); AllocPause ap; put(res, sorted(l)); break;
      }
      SetPtr s = o.a[4] % 3 ? m.find_meshset_from_region(nm, k, true) : m.build_set_from_region(nm, k, o.a[5] % 2);
      AllocPause ap; if (s) fp_set(*s, res);
      break;
    }
    case O_INITSETS: if (w.gm) m.init_sets_from_geometric_model(); break;
    case O_STATE: {
      if (w.st) { auto s2 = State::create(w.b.mesh); (void)s2; break; }
      w.st = State::create(w.b.mesh);
      AllocPause ap; int saved = 0; (void)saved; break;
    }
    case O_ADD: case O_ADDMULTI: {
      if (!w.st) break;
      int T_ = (int)(o.a[2] % NT); std::string nm; Entity_kind k = Entity_kind::CELL; Entity_type et = Entity_type::ALL; bool tile = false; std::shared_ptr<MeshTile> td;
      { AllocPause ap; std::vector<Entity_kind> ks; for (auto q : ALLKINDS) if (spec_has(w.b.spec, q)) ks.push_back(q); if (o.kind == O_ADD) k = ks[o.a[3] % ks.size()];
        nm = std::string(o.a[4] % 2 ? "state vector with a long name " : "v") + std::to_string(w.vecs.size());
        if (m.num_tiles() && o.a[5] % 3 == 0) { tile = true; td = m.tiles()[o.a[5] % m.num_tiles()]; } }
      int before = w.st->size();
      with_type(T_, [&](auto tg) {
        typedef typename decltype(tg)::type T; T val = TT<T>::make(o.a[1]);
        auto one = [&](auto dt, auto d) {
          typedef typename decltype(dt)::type D; std::vector<T> data;
          { AllocPause ap; size_t n = entities(*d, k, et).size(); for (size_t j = 0; j < n; ++j) data.push_back(TT<T>::make(o.a[1] + (long)j)); }
          if (o.kind == O_ADDMULTI) w.st->template add<T, D, Jali::MultiStateVector>(nm, d, k, et, val);
          else if (o.a[0] % 2) w.st->template add<T, D, Jali::UniStateVector>(nm, d, k, et, val);
          else { T const* cp = data.data(); w.st->add(nm, d, k, et, cp); }
        };
        if (tile) one(Dom<MeshTile>(), td); else one(Dom<Mesh>(), w.b.mesh);
      });
      AllocPause ap;
      if (w.st->size() != before + 1) failf("vector-lost", "after adding \"%s\" the state has %d vectors, had %d", nm.c_str(), w.st->size(), before);
      w.vecs.push_back({T_, o.kind == O_ADDMULTI, tile, (*w.st)[before]}); break;
    }
    case O_COPYSV: {
      if (w.vecs.empty()) break;
      W::Vec& v = w.vecs[o.a[1] % w.vecs.size()];
      double sum = 0;
      with_type(v.T, [&](auto tg) { typedef typename decltype(tg)::type T;
        auto one = [&](auto dt) { typedef typename decltype(dt)::type D;
          if (v.multi) { Jali::MultiStateVector<T, D> c(*multi<T, D>(v.p)); AllocPause ap; VD x; for (size_t q = 0; q < c.size(); ++q) for (auto it = c.cbegin((int)q); it != c.cend((int)q); ++it) TT<T>::flat(*it, x); for (double d : x) sum += d; }
          else { Jali::UniStateVector<T, D> c(*uni<T, D>(v.p)); AllocPause ap; VD x; for (size_t q = 0; q < c.size(); ++q) TT<T>::flat(c[(int)q], x); for (double d : x) sum += d; } };
        if (v.tile) one(Dom<MeshTile>()); else one(Dom<Mesh>()); });
      AllocPause ap; res.push_back(sum); break;
    }
    case O_MOVE: {
      int dim = w.b.dim();
      for (int i = 0; i < 3; ++i) {
        int n = (int)g.below((long)w.b.ref.X.size()); X3 x = w.b.ref.X[n]; for (int d = 0; d < dim; ++d) x[d] += 0.02 * (g.unit() - 0.5);
        m.node_set_coordinates(n, pt(dim, x));
      }
      break;
    }
    case O_UPDATE: m.update_geometric_quantities(); break;
    case O_QUERY: {
      { AllocPause ap; res.reserve(20000); }
      const MeshSpec& s = w.b.spec; L l; std::vector<Point> pts;
      auto out = [&]() { AllocPause ap; put(res, l); };
      auto outp = [&]() { AllocPause ap; for (auto& q : pts) for (int d = 0; d < (int)q.dim(); ++d) res.push_back(q[d]); };
      bool F = spec_has(s, Entity_kind::FACE);
      for (int q = 0; q < 12; ++q) {
        int c = (int)g.below(nc), n = (int)g.below((long)cm.num_nodes()); Entity_type t = PTYPES[g.below(3)];
        bool rec = g.below(2);
        switch (g.below(14)) {
          case 0: cm.cell_get_nodes(c, &l); out(); break;
          case 1: cm.node_get_cells(n, t, &l); out(); break;
          case 2: cm.cell_get_node_adj_cells(c, t, &l); out(); break;
          case 3: cm.cell_get_coordinates(c, &pts); outp(); break;
          case 4: res.push_back(cm.cell_volume(c, rec)); break;
          case 5: { Point x = cm.cell_centroid(c, rec); res.push_back(x[0]); break; }
          case 6: if (F) { std::vector<Jali::dir_t> d; cm.cell_get_faces_and_dirs(c, &l, &d, rec); out(); AllocPause ap; put_v(res, d); } break;
          case 7: if (F) { int f = (int)g.below((long)cm.num_faces()); cm.face_get_nodes(f, &l); out(); cm.face_get_cells(f, t, &l); out(); Point x = cm.face_normal(f, rec); res.push_back(x[0]); res.push_back(cm.face_area(f, rec)); } break;
          case 8: if (F) { cm.cell_get_face_adj_cells(c, t, &l); out(); cm.node_get_faces(n, t, &l); out(); } break;
          case 9: if (s.sub >= 1) { int i = (int)g.below((long)cm.num_sides()); cm.side_get_coordinates(i, &pts); outp(); res.push_back(cm.side_volume(i, rec)); Point x = cm.side_facet_normal(i, rec); res.push_back(x[0]); } break;
          case 10: if (s.sub >= 2) { int i = (int)g.below((long)cm.num_wedges()); cm.wedge_get_coordinates(i, &pts); outp(); res.push_back(cm.wedge_volume(i, rec)); Point x = cm.wedge_facet_normal(i, 1, rec); res.push_back(x[0]); } break;
          case 11: if (s.sub >= 3) { int i = (int)g.below((long)cm.num_corners()); cm.corner_get_coordinates(i, &pts); outp(); res.push_back(cm.corner_volume(i, rec)); cm.corner_get_wedges(i, &l); out(); cm.node_get_corners(n, t, &l); out(); } break;
          case 12: if (s.sub >= 2) { cm.cell_get_wedges(c, &l); out(); if (s.sub >= 3) { cm.node_get_wedges(n, t, &l); out(); } } break;
          default: if (s.sub >= 3 && w.b.dim() > 1) { int i = (int)g.below((long)cm.num_corners()); std::vector<std::array<Jali::Entity_ID, 3> > fc; (void)fc; std::vector<Point> x; cm.corner_get_coordinates(i, &x); AllocPause ap; for (auto& z : x) res.push_back(z[0]); } break;
        }
      }
      break;
    }
    case O_TILEQUERY: {
      if (!m.num_tiles()) break;
      { AllocPause ap; res.reserve(20000); }
      auto& ts = m.tiles(); auto& t = ts[o.a[1] % ts.size()];
      for (auto& s : w.held) for (Entity_type pt : PTYPES) { L l; { std::string sn; { AllocPause ap; sn = s->name(); } t->get_set_entities(sn, s->kind(), pt, &l); } AllocPause ap; put(res, sorted(l)); }
      break;
    }
    default: {  // O_FIND
      if (!w.st) break;
      std::string nm; { AllocPause ap; nm = w.vecs.empty() ? std::string("none") : w.vecs[o.a[1] % w.vecs.size()].p->name(); }
      auto it = w.st->find(nm); res.push_back(it == w.st->end() ? -1 : (double)(it - w.st->begin()));
      { AllocPause ap; nm = "no such vector of this state"; }
      res.push_back(w.st->find(nm) == w.st->end());
      break;
    }
  }
  AllocPause ap;
  w.result = res;
}

static void run(const Plan& p) {
  Quiet q;
  W w[2];
  MeshSpec s = get_spec(p, "");
  if (s.mk == MK_3D) { s.nx = std::min(s.nx, 2); s.ny = std::min(s.ny, 3); s.nz = std::min(s.nz, 2); }
  for (W& x : w) {
    x.b = build_mesh(s);
    if (x.b.ref.nc_() == 0) return;
    if (p.get("gm", 0) && s.mk != MK_SIMPLE1 && x.b.dim() > 1) {
      x.gmown = make_gm(x.b.dim(), x.b.ref.X, Rng(s.seed + 3), x.regs); x.gm = x.gmown.get();
      x.b = build_mesh(s, x.gm);
    }
  }
  long done = 0, failed = 0, dirty = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i]; const char* what = names[o.kind % NOPS];
    W &B = w[0], &A = w[1];
    bool err = false, fin = false; std::string msg;
    alloc_record();
    try { apply(B, o, p); } catch (const Errors::Message& e) { AllocPause ap; err = true; msg = e.what(); }
    long N = alloc_seen(); alloc_disarm();
    auto pick = [&](long k) { return k >= SITEWISE ? alloc_site_instance((k - SITEWISE) / 3, k % 3) : k % N; };
    if (alloc_sites()) { probe(("operations with " + std::string(alloc_sites() < 20 ? "under 20" : alloc_sites() < 100 ? "20 to 100" : "over 100") + " allocation sites").c_str()); }
    trace("[%zu] %s: %ld allocations%s", i, what, N, err ? ", refused" : "");
    sim::log((uint64_t)N * 2 + err);
    bool geo = o.kind != O_UPDATE;
    FP finished = fingerprint(B, true), before = fingerprint(A, true);
    std::vector<double> oldgeo = before["geometry"], newgeo = finished["geometry"];
    if (dirty || !geo) before.erase("geometry");
    auto check_geo = [&](FP& now) {  // a geometry update which did not finish: every value is an old or a new one
      if (!geo) {
        auto& v = now["geometry"];
        if (v.size() != oldgeo.size()) failf("contents-changed", "%s failed: %zu geometry values, there were %zu", what, v.size(), oldgeo.size());
        for (size_t j = 0; j < v.size(); ++j) if (v[j] != oldgeo[j] && v[j] != newgeo[j]) failf("contents-changed", "%s failed: geometry value %zu is %.17g, neither the old %.17g nor the new %.17g", what, j, v[j], oldgeo[j], newgeo[j]);
        now.erase("geometry");
      }
    };
    for (auto& f : p.faults) if (f.kind == F_ALLOC && f.where == (int)i && !fin && N > 0) {
      bool threw = false; std::string ty;
      const long at_k = pick(f.k);
      alloc_arm(at_k, std::max(1l, f.n));
      try { apply(A, o, p); } catch (const std::exception& e) { AllocPause ap; threw = true; ty = e.what(); }
      bool fired = alloc_disarm();
      if (fired) { fault_fired(F_ALLOC); }
      if (threw && !fired && !err) failf("spurious-error", "%s ended with \"%s\" although memory was available", what, ty.c_str());
      if (fired && !threw) {
        // nothing failed visibly: then it must have done everything (that is still a swallowed failure)
        failf("failure-swallowed", "%s: allocation %ld of %ld failed, but the operation ended normally", what, at_k, N);
      }
      if (!threw) { fin = true; break; }
      ++failed; probe((std::string("failed ") + what).c_str());
      FP now = fingerprint(A, true);
      check_geo(now); if (dirty) now.erase("geometry");
      unchanged(before, now, finished, what);
    }
    if (!fin) {
      bool err2 = false;
      try { apply(A, o, p); } catch (const Errors::Message&) { err2 = true; }
      catch (const std::exception& e) { failf("retry-fails", "%s: after failures ended with \"%s\"", what, e.what()); }
      if (err2 != err) failf("retry-differs", "%s: after failures %s, without %s", what, err2 ? "refused" : "accepted", err ? "refused" : "accepted");
    }
    FP now = fingerprint(A, true);
    equal(now, finished, what);
    size_t at;
    if (!same(A.result, B.result, &at)) failf("retry-differs", "%s: result differs at position %zu", what, at);
    for (W& x : w) x.extra.reset();
    ++done;
    Hash h; for (auto& x : finished) { h.add_s(x.first); h.add(x.second.size()); if (x.first != "geometry" && x.first != "topology") for (double d : x.second) h.add_d(d); }
    sim::log(h.h); state_hash(h.h);
  }
  if (failed >= 2 && done >= 2) note_nontrivial();
}

namespace sim {
extern const Workload workload = {
    "C14", names, NOPS, generate, run,
    "one case = one simulated run: the same history of mesh, tile, set, state and state vector constructions, region-set requests, geometry updates and queries is applied to two worlds; in one of them each operation first fails once or several times at a seeded allocation (and the following ones), is checked to have ended with an exception and to have left everything that existed as it was, and is then repeated and compared with the other world; blocks still allocated at the end of the run are leaks; non-trivial when at least two operations failed and two were completed",
    "Mesh, Mesh_simple, MeshTile, MeshSet, region sets, GeometricModel, State, state vectors",
    "mesh framework for polygonal/polyhedral and distributed meshes (SimMesh, behind the abstract Mesh interface), MPI communicator, heap allocator",
    "after a failed geometry update geometry values may be old or new until the update is repeated|edits of existing sets and materials are not covered|nothrow allocations may fall back to another algorithm",
    true};
}
