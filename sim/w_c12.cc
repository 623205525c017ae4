// C12: material data follow the material's cells through any history.
#include "stateref.hpp"
using namespace simm;
using namespace sim;
using Jali::Mesh; using Jali::MeshTile; using Jali::State; using Jali::Data_layout;
template <class T, class D> using Multi = Jali::MultiStateVector<T, D>;

enum { O_ADDMAT = 0, O_REMMAT, O_REMNAME, O_ADDCELLS, O_REMCELLS, O_ADDVEC, O_WRITE, O_MESHSET, O_HOLD, O_UNI, NOPS };
// names of which one begins another
static const char* const MATNAMES[] = {"mat", "mat1", "mat10", "Mat1", "mat1 ", "a", "m", "==========================================================================================================1", "==========================================================================================================2"};
static const char* const names[] = {"add-material", "remove-material", "remove-material-by-name", "add-cells", "remove-cells", "add-vector", "write-values", "make-mesh-set", "hold-vector", "add-single-valued-vector"};

static void generate(Plan& p, Rng& r) {
  gen_spec(p, r, "", r.chance(3, 4), false); p.cfg["bg"] = r.chance(1, 6); gen_tiles(p, r, "");
  if (p.cfg["mk"] <= 1) { p.cfg["nranks"] = r.range(1, 3); p.cfg["gl"] = r.range(0, 2); }
  p.cfg["states"] = r.range(1, 2);
  bool big = gen_big(p, r, "", 2);
  p.cfg["heap"] = r.below(5);
  int n = big ? (int)r.range(3, 10) : std::min(100, gen_len(r, 3, 30));
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = i == 0 ? O_ADDMAT : r.chance(1, 4) ? O_ADDVEC : (int)r.below(NOPS);
    for (long& a : o.a) a = r.below(100000);
    p.ops.push_back(o);
    if (o.kind == O_ADDVEC && r.chance(1, 6)) { Fault f; f.kind = F_ALLOC; f.where = i; f.k = r.below(14); f.n = 1; p.faults.push_back(f); }
  }
}

struct Mat { int uid; std::string name; std::set<int> cells; };
struct Vec { std::string name; int T, dom; std::map<std::pair<int, int>, VD> val; SVP sp; };  // (material, cell) -> value
struct World {
  Built b; std::shared_ptr<State> st[2]; int ns = 1, nuid = 0;
  std::vector<Mat> mat[2]; std::vector<Vec> vec[2];
  std::map<std::string, std::set<int> > meshsets;  // cell sets of the mesh
  std::map<std::string, int> usedby;               // a material name belongs to one state
};
template <class F> static void with_vec(World& w, const Vec& v, F f) {
  with_type(v.T, [&](auto tg) {
    typedef typename decltype(tg)::type T;
    auto go = [&](auto* mv) { if (!mv) failf("wrong-type", "vector \"%s\" is not the one which was added", v.name.c_str()); f(tg, *mv); };
    if (v.dom < 0) go(multi<T, Mesh>(v.sp)); else go(multi<T, MeshTile>(v.sp));
  });
  (void)w;
}
// the accessors which need T(0)
template <class V> static void read_absent(const V& v, std::true_type, int m, int c, const char* name) {
  if (v(m, c) != 0 || v(c, m, Data_layout::CELL_CENTRIC) != 0) failf("absent-pair", "vector \"%s\" has a value for cell %d, which material %d does not have", name, c, m);
}
template <class V> static void read_absent(const V&, std::false_type, int, int, const char*) {}
template <class V, class T> static void read_const(const V& v, std::true_type, int m, int c, const T& t, const char* name) {
  if (v(m, c) != t || v(c, m, Data_layout::CELL_CENTRIC) != t) failf("pair-value", "vector \"%s\" has different values for material %d and cell %d in different layouts", name, m, c);
}
template <class V, class T> static void read_const(const V&, std::false_type, int, int, const T&, const char*) {}

static void check(World& w, int st, const char* when) {
  State& S = *w.st[st]; auto& M = w.mat[st]; int nc = w.b.ref.nc_(), nm = (int)M.size();
  if (S.num_materials() != nm) failf("num-materials", "%s: state has %d materials, expected %d", when, S.num_materials(), nm);
  Hash h;
  for (int m = 0; m < nm; ++m) {
    if (S.material_name(m) != M[m].name) failf("material-name", "%s: material %d is \"%s\", expected \"%s\"", when, m, S.material_name(m).c_str(), M[m].name.c_str());
    if (S.material_index_by_name(M[m].name) != m) failf("material-index", "%s: material \"%s\" has index %d, expected %d", when, M[m].name.c_str(), S.material_index_by_name(M[m].name), m);
    auto ms = S.material_set(m);
    if (!ms || ms != S.material_set_by_name(M[m].name) || ms->name() != M[m].name || ms->kind() != Entity_kind::CELL) failf("material-set", "%s: set of material \"%s\" is not found by name", when, M[m].name.c_str());
    std::vector<int> want(M[m].cells.begin(), M[m].cells.end());
    const std::vector<int>& got = S.material_cells(m);
    if (sorted(got) != want) failf("material-cells", "%s: cells of material \"%s\" are %s, expected %s", when, M[m].name.c_str(), str(sorted(got)).c_str(), str(want).c_str());
    if (S.num_material_cells(m) != (int)want.size()) failf("material-cells", "%s: material \"%s\" counts %d cells, expected %zu", when, M[m].name.c_str(), S.num_material_cells(m), want.size());
    if (sorted(ms->entities()) != want) failf("material-set", "%s: set of material \"%s\" holds other cells", when, M[m].name.c_str());
    for (int c = 0; c < nc; ++c) { int i = S.cell_index_in_material(c, m); bool in = M[m].cells.count(c); if (in ? (i < 0 || i >= (int)got.size() || got[i] != c) : i != -1) failf("cell-index", "%s: cell %d has index %d in material \"%s\"", when, c, i, M[m].name.c_str()); }
    h.add_s(M[m].name); for (int c : want) h.add(c);
  }
  if (S.material_index_by_name("no such material") != -1 || S.material_set_by_name("no such material")) fail("material-index", "an unknown material is found");
  for (auto n : MATNAMES) { bool is = false; for (auto& m : M) is |= m.name == n; if (!is && (S.material_index_by_name(n) != -1 || S.material_set_by_name(n))) failf("material-index", "%s: \"%s\" is no material of the state but is found", when, n); }
  for (auto& kv : w.meshsets) if (S.material_index_by_name(kv.first) >= 0) { bool is = false; for (auto& m : M) is |= m.name == kv.first; if (!is) failf("material-index", "%s: removed or unrelated \"%s\" is a material", when, kv.first.c_str()); }
  if (!S.material_cells(nm).empty() || !S.material_cells(nm + 3).empty() || S.material_set_by_name("no such material") || S.material_index_by_name("no such material") != -1) fail("material-name", "a material which does not exist has cells or is found");
  if (S.num_material_cells(nm + 1) != 0 || S.material_name(nm) != "UNDEFINED_MATERIAL") fail("material-name", "an undefined material has a name or cells");
  for (int c = 0; c < nc; ++c) {
    std::vector<int> want; for (int m = 0; m < nm; ++m) if (M[m].cells.count(c)) want.push_back(m);
    if (sorted(S.cell_materials(c)) != want || S.num_cell_materials(c) != (int)want.size()) failf("cell-materials", "%s: materials of cell %d are %s, expected %s", when, c, str(S.cell_materials(c)).c_str(), str(want).c_str());
  }
  for (auto& v : w.vec[st]) {
    with_vec(w, v, [&](auto tg, auto& mv) {
      typedef typename decltype(tg)::type T; const auto& cv = mv;
      typedef std::integral_constant<bool, std::is_arithmetic<T>::value> arith;
      if ((int)mv.size() != nm) failf("vector-size", "%s: vector \"%s\" has %zu materials, the state %d", when, v.name.c_str(), mv.size(), nm);
      for (int m = 0; m < nm; ++m) {
        const std::vector<int>& cells = S.material_cells(m);
        if (mv.size(m) != cells.size() || mv.get_matdata(m).size() != cells.size()) failf("vector-size", "%s: vector \"%s\" has %zu values for material \"%s\" of %zu cells", when, v.name.c_str(), mv.size(m), M[m].name.c_str(), cells.size());
        for (size_t i = 0; i < cells.size(); ++i) {
          auto key = std::make_pair(M[m].uid, cells[i]);
          VD got = flat1<T>(mv.get_matdata(m)[i]), a = flat1<T>(mv(m, cells[i])), b = flat1<T>(mv(cells[i], m, Data_layout::CELL_CENTRIC));
          if (got != a || got != b) failf("pair-value", "%s: vector \"%s\" has different values for material %d and cell %d in different layouts", when, v.name.c_str(), m, cells[i]);
          read_const(cv, arith(), m, cells[i], mv.get_matdata(m)[i], v.name.c_str());
          if (got != v.val.at(key)) failf("pair-value", "%s: vector \"%s\" has value %g... for material \"%s\" and cell %d, expected %g...", when, v.name.c_str(), got[0], M[m].name.c_str(), cells[i], v.val.at(key)[0]);
          for (double d : got) h.add_d(d);
        }
        for (int c = 0; c < nc; ++c) if (!M[m].cells.count(c)) {
          read_absent(cv, arith(), m, c, v.name.c_str());
          if (c % 7 == 0) { bool threw = false; try { mv(m, c) = T(); } catch (const std::exception&) { threw = true; } if (!threw) failf("absent-pair", "%s: vector \"%s\" lets cell %d be written, which material %d does not have", when, v.name.c_str(), c, m); }
        }
      }
    });
  }
  sim::log(h.h); state_hash(h.h);
}

static void run(const Plan& p) {
  Quiet q;
  World w; MeshSpec s = get_spec(p, "");
  if (s.ntiles > 60) s.ntiles = 60;
  w.b = build_mesh(s);
  int nc = w.b.ref.nc_(); if (!nc) return;
  w.ns = p.get("states", 1) > 1 ? 2 : 1;
  for (int i = 0; i < w.ns; ++i) w.st[i] = State::create(w.b.mesh);
  int edits = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i]; Rng g(o.a[0] + 5);
    int st = (int)(o.a[1] % w.ns); State& S = *w.st[st]; auto& M = w.mat[st]; auto& V = w.vec[st];
    trace("[%zu] %s state %d (%zu materials, %zu vectors)", i, names[o.kind], st, M.size(), V.size());
    auto some_cells = [&](int dens) { std::vector<int> c; for (int e = 0; e < nc; ++e) if (w.b.ref.cghost[e] != 2 && g.below(4) < dens) c.push_back(e);  // sets hold no boundary ghosts
      g.shuffle(c); return c; };
    auto new_pair = [&](Mat& m, int c) {  // a new pair has the default value
      if (!m.cells.insert(c).second) return;
      for (auto& v : V) with_type(v.T, [&](auto tg) { typedef typename decltype(tg)::type T; v.val[std::make_pair(m.uid, c)] = flat1<T>(T()); });
    };
    switch (o.kind) {
      case O_ADDMAT: {
        Mat m; m.uid = w.nuid++; m.name = MATNAMES[o.a[2] % 9];
        auto it = w.usedby.find(m.name);
        if (it != w.usedby.end() && it->second != st) break;  // material sets are sets of the mesh: states use different names
        std::vector<int> cells = some_cells((int)(o.a[3] % 5));
        if (g.chance(1, 5) && !cells.empty()) { cells.push_back(cells[0]); probe("a cell listed twice"); }
        bool known = S.material_index_by_name(m.name) >= 0;
        S.add_material(m.name, cells);
        bool have = false; for (auto& x : M) have |= x.name == m.name;
        if (have != known) failf("material-index", "material \"%s\" known: %d, expected %d", m.name.c_str(), known, have);
        if (have) { probe("material name already used"); break; }
        w.usedby[m.name] = st;
        std::set<int> all(cells.begin(), cells.end());
        auto ms = w.meshsets.find(m.name);
        if (ms != w.meshsets.end()) { all.insert(ms->second.begin(), ms->second.end()); probe("material of an existing mesh set"); }
        for (int c : all) new_pair(m, c);
        M.push_back(m); w.meshsets[m.name] = m.cells; ++edits;
        break;
      }
      case O_REMMAT: case O_REMNAME: {
        int m = (int)(o.a[2] % (M.size() + 1));
        if (o.kind == O_REMMAT) { if (m == (int)M.size() && g.chance(3, 4)) { if (M.empty()) break; m = 0; } S.rem_material(m); }
        else S.rem_material_by_name(m < (int)M.size() ? M[m].name : "no such material");
        if (m < (int)M.size()) {
          for (auto& v : V) for (auto it = v.val.begin(); it != v.val.end();) if (it->first.first == M[m].uid) it = v.val.erase(it); else ++it;
          if (m + 1 < (int)M.size()) probe("removal of a material which is not the last");
          M.erase(M.begin() + m); ++edits;
        }
        break;
      }
      case O_ADDCELLS: case O_REMCELLS: {
        if (M.empty()) break;
        Mat& m = M[o.a[2] % M.size()]; int mi = (int)(&m - &M[0]);
        std::vector<int> cells = some_cells((int)(o.a[3] % 4));
        if (o.kind == O_ADDCELLS) {
          if (g.chance(1, 2)) { std::vector<int> f; for (int c : cells) if (!m.cells.count(c)) f.push_back(c); cells = f; }
          bool ow = false, gh = false, oldgh = false; for (int c : cells) (w.b.ref.cghost[c] ? gh : ow) = true; for (int c : m.cells) oldgh |= w.b.ref.cghost[c] != 0;
          if (ow && (gh || oldgh)) probe("owned cells added before ghost cells");
          S.add_cells_to_material(mi, cells);
          for (int c : cells) new_pair(m, c);
          w.meshsets[m.name] = m.cells; ++edits;
        } else {
          bool done = true;
          try { S.rem_cells_from_material(mi, cells); } catch (const std::runtime_error&) { done = false; }  // documented as not implemented: nothing may change
          if (done) { for (int c : cells) { m.cells.erase(c); for (auto& v : V) v.val.erase(std::make_pair(m.uid, c)); } w.meshsets[m.name] = m.cells; ++edits; }
          else probe("removal of cells is refused");
        }
        break;
      }
      case O_ADDVEC: {
        Vec v; v.name = "mv" + std::to_string(V.size()); v.T = (int)(o.a[2] % NT); v.dom = -1;
        int ntl = (int)w.b.mesh->num_tiles(); if (ntl && g.chance(1, 3)) v.dom = (int)g.below(std::min(ntl, 60));
        int how = (int)(o.a[3] % 4); bool threw = false;
        with_type(v.T, [&](auto tg) {
          typedef typename decltype(tg)::type T;
          T init = TT<T>::make(o.a[4]);
          std::vector<std::vector<T> > rect; std::vector<T*> rows; int nm = (int)M.size();
          Data_layout lay = how == 2 ? Data_layout::CELL_CENTRIC : Data_layout::MATERIAL_CENTRIC;
          auto at = [&](int m, int c) { return TT<T>::make(o.a[4] + 31 * m + 7 * c); };
          if (how >= 2) {
            int a = how == 2 ? nc : nm, b = how == 2 ? nm : nc; rect.assign(a, std::vector<T>(b));
            for (int x = 0; x < a; ++x) for (int y = 0; y < b; ++y) rect[x][y] = how == 2 ? at(y, x) : at(x, y);
            for (auto& r : rect) rows.push_back(r.data());
            rows.push_back(nullptr);
          }
          auto add = [&](auto d) {
            typedef typename decltype(d)::element_type D;
            AllocFault af(p, (int)i);
            try {
              if (how == 0) S.template add<T, D, Jali::MultiStateVector>(v.name, d, Entity_kind::CELL, Entity_type::ALL);
              else if (how == 1) S.template add<T, D, Jali::MultiStateVector>(v.name, d, Entity_kind::CELL, Entity_type::ALL, init);
              else { T const* const* cp = rows.data(); S.add(v.name, d, Entity_kind::CELL, Entity_type::ALL, lay, cp); }
            } catch (const std::bad_alloc&) { af.end(); if (!af.fired) fail("spurious-error", "adding a vector ran out of memory"); threw = true; }
            af.end();
            if (af.fired && !threw) fail("failure-swallowed", "allocation failure was not reported");
          };
          if (v.dom < 0) add(w.b.mesh); else { auto t = w.b.mesh->tiles()[v.dom]; add(t); }
          if (!threw) for (int m = 0; m < nm; ++m) for (int c : M[m].cells) v.val[std::make_pair(M[m].uid, c)] = flat1<T>(how == 0 ? T() : how == 1 ? init : at(m, c));
        });
        if (threw) { probe("adding a vector failed"); break; }
        v.sp = S[S.size() - 1]; V.push_back(v);
        if (v.dom >= 0) probe("multi-material vector on a tile");
        break;
      }
      case O_WRITE: {
        if (V.empty() || M.empty()) break;
        Vec& v = V[o.a[2] % V.size()];
        with_vec(w, v, [&](auto tg, auto& mv) {
          typedef typename decltype(tg)::type T;
          for (size_t m = 0; m < M.size(); ++m) { size_t k = 0; for (int c : S.material_cells((int)m)) { if (g.chance(1, 2)) { T t = TT<T>::make(o.a[3] + 17 * (long)m + c); int how = (int)(o.a[4] % 3); if (how == 0) mv((int)m, c) = t; else if (how == 1) mv(c, (int)m, Data_layout::CELL_CENTRIC) = t; else *(mv.begin((int)m) + k) = t; v.val[std::make_pair(M[m].uid, c)] = flat1(t); } ++k; } }
        });
        break;
      }
      case O_MESHSET: {  // a set of the mesh, which may become a material later
        std::string n = MATNAMES[o.a[2] % 9];
        if (w.meshsets.count(n)) break;
        std::vector<int> lo, lg; for (int c : some_cells((int)(o.a[3] % 4))) (w.b.ref.cghost[c] ? lg : lo).push_back(c);
        Jali::make_meshset(n, *w.b.mesh, Entity_kind::CELL, lo, lg, o.a[4] % 2);
        auto& x = w.meshsets[n]; x.insert(lo.begin(), lo.end()); x.insert(lg.begin(), lg.end());
        break;
      }
      case O_HOLD: {  // a vector retrieved by value keeps sharing the data
        if (V.empty()) break;
        Vec& v = V[o.a[2] % V.size()]; if (v.dom >= 0) break;
        with_type(v.T, [&](auto tg) {
          typedef typename decltype(tg)::type T; Multi<T, Mesh> h;
          if (!S.get(v.name, w.b.mesh, Entity_kind::CELL, Entity_type::ALL, &h)) failf("get", "vector \"%s\" is not found", v.name.c_str());
          Mat m; m.uid = w.nuid++; m.name = "held" + std::to_string(w.nuid); std::vector<int> cells = some_cells(2);
          S.add_material(m.name, cells); for (int c : cells) new_pair(m, c);
          w.usedby[m.name] = st; M.push_back(m); w.meshsets[m.name] = m.cells;
          if (h.size() != M.size()) failf("vector-size", "vector \"%s\" retrieved before has %zu materials, expected %zu", v.name.c_str(), h.size(), M.size());
          if (!cells.empty()) { T t = TT<T>::make(o.a[3]); h((int)M.size() - 1, cells[0]) = t; v.val[std::make_pair(m.uid, cells[0])] = flat1(t); }
        });
        break;
      }
      default: { std::string n = "uni" + std::to_string(o.a[2] % 3); double d = 1.5; S.add<double, Mesh, Jali::UniStateVector>(n, w.b.mesh, Entity_kind::CELL, Entity_type::ALL, d); break; }
    }
    for (int x = 0; x < w.ns; ++x) check(w, x, names[o.kind]);
  }
  if (edits > 1 && (!w.vec[0].empty() || !w.vec[1].empty())) note_nontrivial();
}

namespace sim {
extern const Workload workload = {
    "C12", names, NOPS, generate, run,
    "one case = one simulated run: one or two states on a mesh (possibly one rank of a distributed mesh, with ghost cells, with tiles), then a history of adding and removing materials, adding cells, adding multi-material vectors (empty, uniform, cell-major, material-major; six element types; mesh or tile) and writing through every layout, some with a failing allocation, compared after every step with a map from (material, cell) to value; non-trivial when at least two material edits were made and a multi-material vector exists",
    "State (materials, vectors), MultiStateVector, MeshSet, Mesh, MeshTile, Mesh_simple",
    "mesh framework for polygonal/polyhedral and distributed meshes (SimMesh, behind the abstract Mesh interface), MPI communicator",
    "a material made with the name of a cell set of the mesh has the cells of that set and the given ones|states on one mesh use different material names (material sets are sets of the mesh)|removing cells of a material is documented as not implemented: it must be refused without effect, or work|heap contents and allocator are simulated",
    true};
}
