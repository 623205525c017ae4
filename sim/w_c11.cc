// C11: the state manager is a faithful registry under any history.
#include "stateref.hpp"
using namespace simm;
using namespace sim;
using Jali::Mesh; using Jali::MeshTile; using Jali::State; using Jali::Data_layout; using Jali::StateVector_type;

enum { O_ADD = 0, O_ADDDATA, O_ADDVAL, O_COPYREG, O_COPYFREE, O_MADD, O_MDATA, O_MVAL, O_WRITE, O_FIND, O_GET, O_DEEP, O_ITER, O_MEMBERS, O_PRINT, NOPS };
// names of which one begins another
static const char* const VNAMES[] = {"v", "v1", "v10", "V1", "v1 ", "==========================================================================================================1", "==========================================================================================================2"};
static const char* const MNAMES[] = {"m", "m1", "m10"};
static const char* const names[] = {"add", "add-array-data", "add-uniform", "add-copy-of-registered", "add-copy-of-free", "add-multi", "add-multi-data", "add-multi-uniform", "write-values", "find", "get-and-write", "deep-copy", "iterate", "container-functions", "print"};
template <class T, class D> using Uni = Jali::UniStateVector<T, D>;
template <class T, class D> using Multi = Jali::MultiStateVector<T, D>;

static void generate(Plan& p, Rng& r) {
  gen_spec(p, r, "", r.chance(2, 3), true); p.cfg["bg"] = r.chance(1, 6); gen_tiles(p, r, "");
  if (r.chance(1, 3)) p.cfg["ntiles"] = 0;
  p.cfg["bsame"] = r.chance(2, 3);
  if (!p.cfg["bsame"]) gen_spec(p, r, "b.", r.chance(1, 3), true);
  p.cfg["s1"] = r.below(3);         // second state: 0 none, 1 on the same mesh, 2 on the other mesh
  p.cfg["mats"] = r.below(4); p.cfg["mats1"] = r.chance(1, 2) ? p.cfg["mats"] : r.below(4);
  bool big = gen_big(p, r, "", 3);
  p.cfg["heap"] = r.below(5);
  int n = big ? (int)r.range(3, 10) : gen_len(r, 3, 30);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = r.chance(1, 2) ? (int)r.below(8) : (int)r.below(NOPS);
    for (long& a : o.a) a = r.below(100000);
    p.ops.push_back(o);
    if (r.chance(1, 10)) { Fault f; f.kind = F_ALLOC; f.where = i; f.k = r.below(14); f.n = 1; p.faults.push_back(f); }
  }
}

struct Rec {
  int st = 0; std::string name; Entity_kind k = Entity_kind::CELL; Entity_type et = Entity_type::ALL; int T = 0; int dom = 0; bool multi = false;
  std::vector<std::vector<VD> > val;  // one list (uni) or one per material
  SVP sp;
};
struct World {
  Built b[2];
  std::shared_ptr<State> st[2]; int ns = 1; int smesh[2] = {0, 0};
  std::vector<std::vector<std::vector<int> > > mat;  // [state][material] cells, in the order of the set
  std::vector<Rec> reg[2];
};

static std::shared_ptr<MeshTile> tile_of(World& w, int dom) { return w.b[(dom - 2) / 64].mesh->tiles()[(dom - 2) % 64]; }
template <class F> void with_domain(World& w, int dom, F f) {
  if (dom < 2) f(Dom<Mesh>(), w.b[dom].mesh);
  else f(Dom<MeshTile>(), tile_of(w, dom));
}
static size_t dom_size(World& w, int dom, Entity_kind k, Entity_type t) { return dom < 2 ? entities(*w.b[dom].mesh, k, t).size() : entities(*tile_of(w, dom), k, t).size(); }

// current contents of a registered vector
static std::vector<std::vector<VD> > contents(World& w, const Rec& r) {
  std::vector<std::vector<VD> > o;
  with_type(r.T, [&](auto tg) {
    typedef typename decltype(tg)::type T;
    with_domain(w, r.dom, [&](auto dt, auto) {
      typedef typename decltype(dt)::type D;
      if (r.multi) {
        auto* v = multi<T, D>(r.sp);
        if (!v) failf("wrong-type", "vector \"%s\" is not the %s vector which was added", r.name.c_str(), TNAME[r.T]);
        for (size_t m = 0; m < v->size(); ++m) { o.push_back(std::vector<VD>()); for (auto it = v->cbegin((int)m); it != v->cend((int)m); ++it) o.back().push_back(flat1<T>(*it)); }
      } else {
        auto* v = uni<T, D>(r.sp);
        if (!v) failf("wrong-type", "vector \"%s\" is not the %s vector which was added", r.name.c_str(), TNAME[r.T]);
        o.push_back(std::vector<VD>());
        for (size_t i = 0; i < v->size(); ++i) o.back().push_back(flat1<T>((*v)[(int)i]));
      }
    });
  });
  return o;
}
static void check_values(World& w, const Rec& r, const char* when) {
  auto c = contents(w, r);
  if (c.size() != r.val.size()) failf("vector-size", "%s: vector \"%s\" has %zu parts, expected %zu", when, r.name.c_str(), c.size(), r.val.size());
  Hash h;
  for (size_t m = 0; m < c.size(); ++m) {
    if (c[m].size() != r.val[m].size()) failf("vector-size", "%s: vector \"%s\" (%s on %s, part %zu) has %zu values, expected %zu", when, r.name.c_str(), TNAME[r.T], Jali::Entity_kind_string(r.k).c_str(), m, c[m].size(), r.val[m].size());
    for (size_t i = 0; i < c[m].size(); ++i) if (c[m][i] != r.val[m][i]) failf("vector-values", "%s: value %zu of vector \"%s\" (part %zu, %s) is %g..., expected %g...", when, i, r.name.c_str(), m, TNAME[r.T], c[m][i][0], r.val[m][i][0]);
    for (auto& v : c[m]) for (double d : v) h.add_d(d);
  }
  sim::log(h.h);
}
static void check_meta(World& w, const Rec& r) {
  const SVP& s = r.sp;
  if (s->name() != r.name || s->entity_kind() != r.k || s->entity_type() != r.et || s->type() != (r.multi ? StateVector_type::MULTIVAL : StateVector_type::UNIVAL)) failf("vector-metadata", "vector \"%s\" reports name \"%s\", kind %d, type %d", r.name.c_str(), s->name().c_str(), (int)s->entity_kind(), (int)s->entity_type());
  with_type(r.T, [&](auto tg) { typedef typename decltype(tg)::type T; if (s->data_type() != typeid(T)) failf("vector-metadata", "vector \"%s\" reports data type %s", r.name.c_str(), s->data_type().name()); });
  with_domain(w, r.dom, [&](auto dt, auto d) {
    typedef typename decltype(dt)::type D;
    std::shared_ptr<D> got; const Mesh* gm = nullptr;
    if (auto u = std::dynamic_pointer_cast<Jali::UniStateVectorBase<D> >(s)) { got = u->domain(); gm = &u->mesh(); }
    else if (auto m = std::dynamic_pointer_cast<Jali::MultiStateVectorBase<D> >(s)) { got = m->domain(); gm = &m->mesh(); }
    if (got != d) failf("vector-domain", "vector \"%s\" is on another domain than asked for", r.name.c_str());
    if (gm != w.b[r.dom < 2 ? r.dom : (r.dom - 2) / 64].mesh.get()) failf("vector-domain", "vector \"%s\" is on another mesh", r.name.c_str());
  });
}
static void check_registry(World& w, int st, bool values) {
  State& s = *w.st[st]; const State& cs = s; auto& reg = w.reg[st];
  if (s.size() != (int)reg.size()) failf("registry-size", "state has %d vectors, expected %zu", s.size(), reg.size());
  size_t i = 0; auto nit = s.names_begin();
  for (auto it = s.begin(); it != s.end(); ++it, ++nit, ++i) {
    if (i >= reg.size() || *it != reg[i].sp) failf("iteration", "vector %zu of the state is not \"%s\"", i, i < reg.size() ? reg[i].name.c_str() : "(none)");
    if (nit == s.names_end() || *nit != reg[i].name) failf("name-iteration", "name %zu of the state is \"%s\", expected \"%s\"", i, nit == s.names_end() ? "(none)" : nit->c_str(), reg[i].name.c_str());
    if (s[(int)i] != reg[i].sp || cs[(int)i] != reg[i].sp) failf("iteration", "element %zu of the state is another vector", i);
  }
  if (nit != s.names_end() || i != reg.size()) failf("name-iteration", "state has %zu vectors and another number of names", i);
  i = 0; for (auto it = cs.cbegin(); it != cs.cend(); ++it, ++i) if (*it != reg[i].sp) failf("iteration", "vector %zu of the constant state is another one", i);
  for (int kk = 0; kk < 7; ++kk) {
    Entity_kind K = ALLKINDS[kk];
    std::vector<SVP> want, got; std::vector<std::string> wn, gn;
    for (auto& r : reg) if (r.k == K) { want.push_back(r.sp); wn.push_back(r.name); }
    long nk = s.entity_end(K) - s.entity_begin(K), nn = s.names_entity_end(K) - s.names_entity_begin(K);
    if (nk != (long)want.size() || nn != (long)want.size()) failf("kind-iteration", "iterating over %s vectors visits %ld (names: %ld), expected %zu", KINDNAME[kk], nk, nn, want.size());
    for (auto it = s.entity_begin(K); it != s.entity_end(K); ++it) got.push_back(*it);
    for (auto it = s.names_entity_begin(K); it != s.names_entity_end(K); ++it) gn.push_back(*it);
    if (got != want) failf("kind-iteration", "iterating over %s vectors does not visit them in insertion order", KINDNAME[kk]);
    if (gn != wn) failf("kind-iteration", "iterating over names of %s vectors visits others", KINDNAME[kk]);
  }
  for (auto& r : reg) check_meta(w, r);
  if (values) for (auto& r : reg) check_values(w, r, "check");
}

static void run(const Plan& p) {
  Quiet q;
  World w;
  MeshSpec s = get_spec(p, "");
  if (s.ntiles > 60) s.ntiles = 60;
  w.b[0] = build_mesh(s);
  if (w.b[0].ref.nc_() == 0) return;
  MeshSpec s1 = p.get("bsame", 1) ? s : get_spec(p, "b.");
  w.b[1] = build_mesh(s1);
  if (w.b[1].ref.nc_() == 0) return;
  int s1k = (int)p.get("s1", 0) % 3;
  w.st[0] = State::create(w.b[0].mesh);
  if (s1k) { w.ns = 2; w.smesh[1] = s1k - 1; w.st[1] = State::create(w.b[s1k - 1].mesh); }
  w.mat.resize(2);
  for (int st = 0; st < w.ns; ++st) {
    int nm = (int)p.get(st ? "mats1" : "mats", 0) % 4; Rng g(p.get("mseed", 1) + (p.get("mats", 0) == p.get("mats1", 0) ? 0 : st));
    const Built& b = w.b[w.smesh[st]];
    for (int m = 0; m < nm; ++m) {
      std::vector<int> cells; for (int c = 0; c < b.ref.nc_(); ++c) if (g.below(3) && b.ref.cghost[c] != 2) cells.push_back(c);  // sets hold no boundary ghosts
      w.st[st]->add_material("mat" + std::to_string(st) + "_" + std::to_string(m), cells);
      std::vector<int> o; for (int c : cells) if (!b.ref.cghost[c]) o.push_back(c); for (int c : cells) if (b.ref.cghost[c]) o.push_back(c);
      if (sorted(w.st[st]->material_cells(m)) != sorted(o)) failf("material-cells", "cells of material %d are %s, expected %s", m, str(w.st[st]->material_cells(m)).c_str(), str(o).c_str());
      w.mat[st].push_back(w.st[st]->material_cells(m));
    }
  }
  std::vector<Entity_kind> kinds[2];
  for (int mi = 0; mi < 2; ++mi) for (int k = 0; k < 7; ++k) if (spec_has(w.b[mi].spec, ALLKINDS[k])) kinds[mi].push_back(ALLKINDS[k]);
  int nadded = 0, nrepeat = 0;
  // find the model's record
  auto lookup = [&](int st, const Rec& r) -> int { for (size_t i = 0; i < w.reg[st].size(); ++i) { auto& x = w.reg[st][i]; if (x.name == r.name && x.k == r.k && x.T == r.T && x.dom == r.dom && x.multi == r.multi && x.et == r.et) return (int)i; } return -1; };
  auto expect_values = [&](long seed, int t, size_t n, bool uniform) {
    std::vector<VD> o;
    with_type(t, [&](auto tg) { typedef typename decltype(tg)::type T; for (size_t i = 0; i < n; ++i) o.push_back(flat1<T>(TT<T>::make(uniform ? seed : seed * 37 + (long)i))); });
    return o;
  };
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i]; Rng g(o.a[0] + 5);
    int st = (int)(o.a[1] % w.ns); State& S = *w.st[st]; auto& reg = w.reg[st];
    // what is asked for
    Rec r; r.st = st; int mi = w.smesh[st];
    r.T = (int)(o.a[2] % NT); int nm = (int)(o.a[3] % 7); r.name = VNAMES[nm];
    r.et = (nm == 3) ? Entity_type::PARALLEL_OWNED : nm == 4 ? Entity_type::PARALLEL_GHOST : nm == 5 && s.bghost ? Entity_type::BOUNDARY_GHOST : Entity_type::ALL;
    r.k = kinds[mi][g.below((long)kinds[mi].size())];
    int ntl = (int)w.b[mi].mesh->num_tiles();
    r.dom = mi; if (ntl && g.chance(1, 3)) r.dom = 2 + 64 * mi + (int)g.below(std::min(ntl, 60));
    r.multi = o.kind >= O_MADD && o.kind <= O_MVAL;
    if (r.multi) { r.k = Entity_kind::CELL; r.et = Entity_type::ALL; r.name = MNAMES[nm % 3]; }
    trace("[%zu] %s state %d \"%s\" %s kind %d dom %d", i, names[o.kind], st, r.name.c_str(), TNAME[r.T], (int)r.k, r.dom);
    switch (o.kind) {
      case O_ADD: case O_ADDDATA: case O_ADDVAL: case O_MADD: case O_MDATA: case O_MVAL: {
        int old = lookup(st, r);
        size_t n = dom_size(w, r.dom, r.k, r.et);
        long seed = o.a[4] + 1;
        SVB* res = nullptr; bool threw = false;
        with_type(r.T, [&](auto tg) { typedef typename decltype(tg)::type T; with_domain(w, r.dom, [&](auto dt, auto d) {
          typedef typename decltype(dt)::type D;
          std::vector<T> data; std::vector<std::vector<T> > rect; std::vector<T*> rows;
          Data_layout lay = o.a[5] % 2 ? Data_layout::CELL_CENTRIC : Data_layout::MATERIAL_CENTRIC;
          int nmat = (int)w.mat[st].size(), ncell = w.b[mi].ref.nc_();
          if (o.kind == O_ADDDATA) for (size_t j = 0; j < n; ++j) data.push_back(TT<T>::make(seed * 37 + (long)j));
          if (o.kind == O_MDATA) {
            int a = lay == Data_layout::CELL_CENTRIC ? ncell : nmat, b2 = lay == Data_layout::CELL_CENTRIC ? nmat : ncell;
            rect.assign(a, std::vector<T>(b2));
            for (int x = 0; x < a; ++x) for (int y = 0; y < b2; ++y) { int c = lay == Data_layout::CELL_CENTRIC ? x : y, m = lay == Data_layout::CELL_CENTRIC ? y : x; rect[x][y] = TT<T>::make(seed * 37 + c * 11 + m); }
            for (auto& v : rect) rows.push_back(v.data());
            rows.push_back(nullptr);
          }
          T val = TT<T>::make(seed);
          AllocFault af(p, (int)i);
          try {
            switch (o.kind) {
              case O_ADD: res = &S.template add<T, D, Jali::UniStateVector>(r.name, d, r.k, r.et); break;
              case O_ADDDATA: { T const* cp = data.data(); res = &S.add(r.name, d, r.k, r.et, cp); break; }
              case O_ADDVAL: res = &S.template add<T, D, Jali::UniStateVector>(r.name, d, r.k, r.et, val); break;
              case O_MADD: res = &S.template add<T, D, Jali::MultiStateVector>(r.name, d, r.k, r.et); break;
              case O_MDATA: { T const* const* cp = rows.data(); res = &S.add(r.name, d, r.k, r.et, lay, cp); break; }
              default: res = &S.template add<T, D, Jali::MultiStateVector>(r.name, d, r.k, r.et, val); break;
            }
          } catch (const std::bad_alloc&) { af.end(); if (!af.fired) fail("spurious-error", "adding a vector ran out of memory"); threw = true; }
          af.end();
          if (af.fired && !threw) fail("failure-swallowed", "allocation failure was not reported");
        }); });
        if (threw) { probe("adding a vector failed"); check_registry(w, st, false); break; }
        if (old >= 0) {
          ++nrepeat; probe("existing vector added again");
          if (res != reg[old].sp.get()) failf("duplicate-vector", "adding \"%s\" again did not return the existing vector", r.name.c_str());
          break;
        }
        if (S.size() != (int)reg.size() + 1) failf("registry-size", "after adding \"%s\" the state has %d vectors, expected %zu", r.name.c_str(), S.size(), reg.size() + 1);
        r.sp = S[S.size() - 1];
        if (r.sp.get() != res) failf("iteration", "the vector returned by adding \"%s\" is not the last one of the state", r.name.c_str());
        if (o.kind == O_ADDDATA || o.kind == O_ADDVAL) r.val.push_back(expect_values(seed, r.T, n, o.kind == O_ADDVAL));
        else if (o.kind == O_MVAL) for (auto& mc : w.mat[st]) r.val.push_back(expect_values(seed, r.T, mc.size(), true));
        else if (o.kind == O_MDATA) {
          for (size_t m = 0; m < w.mat[st].size(); ++m) { r.val.push_back(std::vector<VD>()); for (int c : w.mat[st][m]) with_type(r.T, [&](auto tg) { typedef typename decltype(tg)::type T; r.val.back().push_back(flat1<T>(TT<T>::make(seed * 37 + c * 11 + (long)m))); }); }
        } else {  // values unspecified: only the sizes are known
          r.val = contents(w, r);
          if (r.multi ? r.val.size() != w.mat[st].size() : r.val[0].size() != n) failf("vector-size", "new vector \"%s\" has %zu values, expected %zu", r.name.c_str(), r.multi ? r.val.size() : r.val[0].size(), r.multi ? w.mat[st].size() : n);
          if (r.multi) for (size_t m = 0; m < r.val.size(); ++m) if (r.val[m].size() != w.mat[st][m].size()) failf("vector-size", "new vector \"%s\" has %zu values for material %zu of %zu cells", r.name.c_str(), r.val[m].size(), m, w.mat[st][m].size());
        }
        reg.push_back(r); ++nadded;
        check_values(w, reg.back(), names[o.kind]);
        break;
      }
      case O_COPYREG: case O_COPYFREE: {
        // copy of a vector of any state (or of none), into this state
        int from = (int)(o.a[4] % w.ns); Rec src; bool free_src = o.kind == O_COPYFREE;
        if (!free_src) { if (w.reg[from].empty()) break; src = w.reg[from][o.a[5] % w.reg[from].size()]; }
        else { src = r; src.dom = (int)(o.a[5] % 2); if (ntl && g.chance(1, 3)) src.dom = 2 + 64 * mi + (int)g.below(std::min(ntl, 60)); if (!spec_has(w.b[src.dom < 2 ? src.dom : mi].spec, src.k)) break; }
        if (src.dom < 2 && !spec_has(w.b[mi].spec, src.k)) break;
        Rec c = src; c.st = st; if (c.dom < 2) c.dom = mi;
        int old = lookup(st, c); bool threw = false; SVB* res = nullptr;
        size_t n = dom_size(w, c.dom, c.k, c.et), nsrc = dom_size(w, src.dom, src.k, src.et);
        with_type(src.T, [&](auto tg) { typedef typename decltype(tg)::type T; with_domain(w, src.dom, [&](auto dt, auto d) {
          typedef typename decltype(dt)::type D;
          std::unique_ptr<Uni<T, D> > fv;
          if (free_src) {
            std::vector<T> data; for (size_t j = 0; j < nsrc; ++j) data.push_back(TT<T>::make(o.a[3] * 41 + (long)j));
            fv.reset(new Uni<T, D>(src.name, d, o.a[2] % 2 ? w.st[from] : nullptr, src.k, src.et, data.data()));
            src.val.assign(1, flatv(data));
            // without data the vector is still sized by its domain
            Uni<T, D> e(src.name, d, nullptr, src.k, src.et);
            if (e.size() != nsrc) failf("vector-size", "new vector has %zu values, expected %zu", e.size(), nsrc);
          }
          AllocFault af(p, (int)i);
          try {
            if (free_src) res = &S.add(*fv);
            else if (src.multi) res = &S.add(*multi<T, D>(src.sp));
            else res = &S.add(*uni<T, D>(src.sp));
          } catch (const std::bad_alloc&) { af.end(); if (!af.fired) fail("spurious-error", "copying a vector ran out of memory"); threw = true; }
          af.end();
          if (af.fired && !threw) fail("failure-swallowed", "allocation failure was not reported");
          if (free_src) for (size_t j = 0; j < nsrc; ++j) (*fv)[(int)j] = TT<T>::make(7777 + (long)j);  // the original is overwritten
        }); });
        if (threw) { check_registry(w, st, false); break; }
        if (old >= 0) { ++nrepeat; if (res != reg[old].sp.get()) failf("duplicate-vector", "adding a copy of \"%s\" again did not return the existing vector", c.name.c_str()); break; }
        if (S.size() != (int)reg.size() + 1) failf("registry-size", "after adding a copy of \"%s\" the state has %d vectors, expected %zu", c.name.c_str(), S.size(), reg.size() + 1);
        c.sp = S[S.size() - 1];
        if (c.sp.get() != res) failf("iteration", "the vector returned by copying \"%s\" is not the last one of the state", c.name.c_str());
        if (!free_src && c.sp == src.sp) failf("aliased-copy", "the copy of \"%s\" is the original", c.name.c_str());
        auto now = contents(w, c);
        if (!c.multi) {
          if (now[0].size() != n) failf("vector-size", "copy of \"%s\" has %zu values, its domain %zu", c.name.c_str(), now[0].size(), n);
          for (size_t j = 0; j < std::min(n, nsrc); ++j) if (now[0][j] != src.val[0][j]) failf("copy-values", "value %zu of the copy of \"%s\" is %g..., expected %g...", j, c.name.c_str(), now[0][j][0], src.val[0][j][0]);
          if (c.dom != src.dom) probe("vector copied to another mesh");
        } else {
          if (now.size() != w.mat[st].size()) failf("vector-size", "copy of \"%s\" has %zu materials, the state %zu", c.name.c_str(), now.size(), w.mat[st].size());
          for (size_t m = 0; m < now.size(); ++m) if (now[m].size() != w.mat[st][m].size()) failf("vector-size", "copy of \"%s\" has %zu values for material %zu of %zu cells", c.name.c_str(), now[m].size(), m, w.mat[st][m].size());
          if (w.mat[st] == w.mat[src.st] && now != src.val) failf("copy-values", "the copy of multi-material vector \"%s\" has other values", c.name.c_str());
        }
        c.val = now;
        if (!free_src) probe("copy of a vector of a state");
        reg.push_back(c); ++nadded;
        break;
      }
      case O_WRITE: case O_GET: {
        if (reg.empty()) break;
        Rec& x = reg[o.a[5] % reg.size()];
        with_type(x.T, [&](auto tg) { typedef typename decltype(tg)::type T; with_domain(w, x.dom, [&](auto dt, auto d) {
          typedef typename decltype(dt)::type D;
          auto write = [&](auto& v) { for (size_t j = 0; j < v.size(); ++j) if (g.chance(1, 2)) { T t = TT<T>::make(o.a[3] * 13 + (long)j); v[(int)j] = t; x.val[0][j] = flat1(t); } };
          auto mwrite = [&](auto& v) { for (size_t m = 0; m < v.size(); ++m) for (size_t j = 0; j < v.size((int)m); ++j) if (g.chance(1, 2)) { T t = TT<T>::make(o.a[3] * 13 + (long)(j + 100 * m)); if (o.a[2] % 2) v.get_matdata((int)m)[j] = t; else v((int)m, w.mat[st][m][j]) = t; x.val[m][j] = flat1(t); } };
          if (o.kind == O_WRITE) { if (x.multi) mwrite(*multi<T, D>(x.sp)); else { auto* v = uni<T, D>(x.sp); int how = (int)(o.a[2] % 3); if (how == 0) write(*v); else if (how == 1) { size_t j = 0; for (auto it = v->begin(); it != v->end(); ++it, ++j) { T t = TT<T>::make(o.a[3] + (long)j); *it = t; x.val[0][j] = flat1(t); } } else { T* raw = v->get_raw_data(); for (size_t j = 0; j < v->size(); ++j) { T t = TT<T>::make(o.a[3] + 3 * (long)j); raw[j] = t; x.val[0][j] = flat1(t); } if (&(*v->get_data())[0] != raw) fail("raw-data", "data pointers differ"); } } }
          else {
            // a vector retrieved by value shares its data with the registered one
            int how = (int)(o.a[2] % 2);
            if (x.multi) {
              if (how == 0) { Multi<T, D> v; if (!S.get(x.name, d, x.k, x.et, &v)) failf("get", "vector \"%s\" is not found", x.name.c_str()); mwrite(v); }
              else { std::shared_ptr<Multi<T, D> > v; if (!S.get(x.name, d, x.k, x.et, &v) || v != x.sp) failf("get", "vector \"%s\" is not found", x.name.c_str()); mwrite(*v); }
            } else {
              if (how == 0) { Uni<T, D> v; if (!S.get(x.name, d, x.k, x.et, &v)) failf("get", "vector \"%s\" is not found", x.name.c_str()); write(v); }
              else { std::shared_ptr<Uni<T, D> > v; if (!S.get(x.name, d, x.k, x.et, &v) || v != x.sp) failf("get", "vector \"%s\" is not found", x.name.c_str()); write(*v); }
            }
          }
        }); });
        check_values(w, x, names[o.kind]);
        break;
      }
      case O_FIND: {
        // any combination of name, kind, type, data type, domain
        std::string nme = o.a[4] % 7 == 6 ? "no such vector" : (o.a[4] % 2 ? MNAMES[o.a[3] % 3] : VNAMES[o.a[3] % 7]);
        Entity_kind K = g.chance(1, 3) ? Entity_kind::ANY_KIND : g.chance(1, 2) ? Entity_kind::CELL : ALLKINDS[g.below(7)];
        Entity_type E = g.chance(1, 2) ? Entity_type::ALL : g.chance(1, 2) ? Entity_type::PARALLEL_OWNED : Entity_type::PARALLEL_GHOST;
        int T0 = (int)(o.a[2] % NT);
        if (!reg.empty() && g.chance(2, 3)) { const Rec& x = reg[o.a[5] % reg.size()]; nme = x.name; if (g.chance(1, 2)) K = x.k; if (g.chance(1, 2)) T0 = x.T; if (g.chance(1, 2)) r.dom = x.dom; }
        const State& CS = S;
        auto model = [&](bool bydom, int form, bool byT) -> SVP { for (auto& x : reg) if (x.name == nme && (K == Entity_kind::ANY_KIND || x.k == K) && (E == Entity_type::ALL || x.et == E) && (!bydom || x.dom == r.dom) && (form < 0 || x.multi == (form == 1)) && (!byT || x.T == T0)) return x.sp; return nullptr; };
        auto ptr = [&](State::iterator it) -> SVP { return it == S.end() ? nullptr : *it; };
        auto cptr = [&](State::const_iterator it) -> SVP { return it == CS.cend() ? nullptr : *it; };
        auto same = [&](const SVP& a, const SVP& b2, const char* what) { if (a != b2) failf("find", "%s: looking for \"%s\" finds %s, expected %s", what, nme.c_str(), a ? a->name().c_str() : "nothing", b2 ? b2->name().c_str() : "nothing"); sim::log((uint64_t)(a ? 1 : 0)); };
        same(ptr(S.find(nme, K, E)), model(false, -1, false), "by name");
        same(cptr(CS.find(nme, K, E)), model(false, -1, false), "by name");
        if (model(false, -1, false)) probe("found by name");
        with_domain(w, r.dom, [&](auto dt, auto d) {
          typedef typename decltype(dt)::type D;
          same(ptr(S.find(nme, d, K, E)), model(true, -1, false), "by domain"); same(cptr(CS.find(nme, d, K, E)), model(true, -1, false), "by domain");
          same(ptr(S.template find<D, StateVector_type::UNIVAL>(nme, d, K, E)), model(true, 0, false), "by domain, single-valued"); same(cptr(CS.template find<D, StateVector_type::MULTIVAL>(nme, d, K, E)), model(true, 1, false), "by domain, multi-valued");
          same(ptr(S.template find<D, StateVector_type::MULTIVAL>(nme, d, K, E)), model(true, 1, false), "by domain, multi-valued"); same(cptr(CS.template find<D, StateVector_type::UNIVAL>(nme, d, K, E)), model(true, 0, false), "by domain, single-valued");
          with_type(T0, [&](auto tg) {
            typedef typename decltype(tg)::type T;
            SVP u = model(true, 0, true), m = model(true, 1, true);
            same(ptr(S.template find<T, D, Jali::UniStateVector>(nme, d, K, E)), u, "by data type"); same(cptr(CS.template find<T, D, Jali::UniStateVector>(nme, d, K, E)), u, "by data type");
            same(ptr(S.template find<T, D, Jali::MultiStateVector>(nme, d, K, E)), m, "by data type"); same(cptr(CS.template find<T, D, Jali::MultiStateVector>(nme, d, K, E)), m, "by data type");
            std::shared_ptr<Uni<T, D> > sp; bool f = S.get(nme, d, K, E, &sp);
            if (f != (u != nullptr) || sp != u) failf("get", "get of \"%s\" as %s answers %d", nme.c_str(), TNAME[T0], (int)f);
            std::shared_ptr<Uni<T, D> const> csp; f = CS.get(nme, d, K, E, &csp);
            if (f != (u != nullptr) || csp != u) failf("get", "get of constant \"%s\" as %s answers %d", nme.c_str(), TNAME[T0], (int)f);
            std::shared_ptr<Multi<T, D> > mp; f = S.get(nme, d, K, E, &mp);
            if (f != (m != nullptr) || mp != m) failf("get", "get of multi \"%s\" as %s answers %d", nme.c_str(), TNAME[T0], (int)f);
            std::shared_ptr<Multi<T, D> const> cmp; f = CS.get(nme, d, K, E, &cmp);
            if (f != (m != nullptr) || cmp != m) failf("get", "get of constant multi \"%s\" as %s answers %d", nme.c_str(), TNAME[T0], (int)f);
            same(ptr(S.template find<T, D, StateVector_type::UNIVAL>(nme, d, K, E)), u, "by data type and form"); same(cptr(CS.template find<T, D, StateVector_type::MULTIVAL>(nme, d, K, E)), m, "by data type and form");
            same(ptr(S.template find<T, D, StateVector_type::MULTIVAL>(nme, d, K, E)), m, "by data type and form"); same(cptr(CS.template find<T, D, StateVector_type::UNIVAL>(nme, d, K, E)), u, "by data type and form");
            // with nothing but the name (and the domain) given
            auto any = [&](bool multi, int dom) -> SVP { for (auto& x : reg) if (x.name == nme && x.dom == dom && x.multi == multi && x.T == T0) return x.sp; return nullptr; };
            SVP au = any(false, r.dom), am = any(true, r.dom);
            sp.reset(); f = S.get(nme, d, &sp); if (f != (au != nullptr) || sp != au) failf("get", "get of \"%s\" as %s on its domain answers %d", nme.c_str(), TNAME[T0], (int)f);
            csp.reset(); f = CS.get(nme, d, &csp); if (f != (au != nullptr) || csp != au) failf("get", "get of constant \"%s\" as %s on its domain answers %d", nme.c_str(), TNAME[T0], (int)f);
            mp.reset(); f = S.get(nme, d, &mp); if (f != (am != nullptr) || mp != am) failf("get", "get of multi \"%s\" as %s on its domain answers %d", nme.c_str(), TNAME[T0], (int)f);
            int home = S.mesh() == w.b[0].mesh ? 0 : 1;
            SVP hu = any(false, home), hm = any(true, home);
            { Uni<T, Mesh> v; f = S.get(nme, &v); if (f != (hu != nullptr)) failf("get", "get of \"%s\" as %s on the mesh answers %d", nme.c_str(), TNAME[T0], (int)f); if (f && v.get_data() != uni<T, Mesh>(hu)->get_data()) failf("get", "get of \"%s\" as %s on the mesh answers other data", nme.c_str(), TNAME[T0]); }
            { Multi<T, Mesh> v; f = S.get(nme, &v); if (f != (hm != nullptr)) failf("get", "get of multi \"%s\" as %s on the mesh answers %d", nme.c_str(), TNAME[T0], (int)f); if (f && v.get_data() != multi<T, Mesh>(hm)->get_data()) failf("get", "get of multi \"%s\" as %s on the mesh answers other data", nme.c_str(), TNAME[T0]); }
            if (u) probe("found by name, kind, type and domain");
          });
        });
        break;
      }
      case O_DEEP: {  // a copy has the same values and is independent, whichever is written
        if (reg.empty()) break;
        Rec& x = reg[o.a[5] % reg.size()];
        with_type(x.T, [&](auto tg) { typedef typename decltype(tg)::type T; with_domain(w, x.dom, [&](auto dt, auto) {
          typedef typename decltype(dt)::type D;
          T t = TT<T>::make(o.a[3] + 5);
          if (!x.multi) {
            Uni<T, D>& v = *uni<T, D>(x.sp); Uni<T, D> c(v);
            if (c.name() != x.name || c.entity_kind() != x.k || c.entity_type() != x.et || c.domain() != v.domain()) failf("copy-metadata", "copy of \"%s\" has other metadata", x.name.c_str());
            if (c.size() != v.size()) failf("copy-values", "copy of \"%s\" has another size", x.name.c_str());
            for (size_t j = 0; j < c.size(); ++j) if (flat1<T>(c[(int)j]) != x.val[0][j]) failf("copy-values", "copy of \"%s\" has other values", x.name.c_str());
            for (size_t j = 0; j < c.size(); ++j) c[(int)j] = t;
            check_values(w, x, "after writing to a copy");
            Uni<T, D> c2(v); auto keep = x.val;
            for (size_t j = 0; j < v.size(); ++j) { v[(int)j] = t; x.val[0][j] = flat1(t); }
            for (size_t j = 0; j < c2.size(); ++j) if (flat1<T>(c2[(int)j]) != keep[0][j]) failf("copy-values", "writing to \"%s\" changed its copy", x.name.c_str());
          } else {
            Multi<T, D>& v = *multi<T, D>(x.sp); Multi<T, D> c(v);
            if (c.size() != v.size()) failf("copy-values", "copy of \"%s\" has another size", x.name.c_str());
            for (size_t m = 0; m < c.size(); ++m) { if (flatv(c.get_matdata((int)m)) != x.val[m]) failf("copy-values", "copy of \"%s\" has other values", x.name.c_str()); for (auto& e : c.get_matdata((int)m)) e = t; }
            check_values(w, x, "after writing to a copy");
          }
        }); });
        break;
      }
      case O_MEMBERS: {  // container functions of vectors not in any state
        with_type(r.T, [&](auto tg) { typedef typename decltype(tg)::type T; with_domain(w, r.dom, [&](auto dt, auto d) {
          typedef typename decltype(dt)::type D;
          size_t n = dom_size(w, r.dom, r.k, r.et); T t = TT<T>::make(o.a[3]), t2 = TT<T>::make(o.a[3] + 1);
          Uni<T, D> v("free", d, nullptr, r.k, r.et, t);
          if (v.size() != n) failf("vector-size", "new vector has %zu values, expected %zu", v.size(), n);
          size_t n2 = n + g.below(5); v.resize(n2, t2);
          if (v.size() != n2) failf("vector-size", "resized vector has %zu values, expected %zu", v.size(), n2);
          for (size_t j = 0; j < n2; ++j) if (flat1<T>(v[(int)j]) != flat1(j < n ? t : t2)) fail("vector-values", "resizing changed values");
          Uni<T, D> sh; sh = v; if (n2) { sh[0] = t2; if (flat1<T>(v[0]) != flat1(t2)) fail("assignment", "assignment does not share data"); }
          if (sh.name() != "free" || sh.domain() != v.domain() || sh.entity_kind() != r.k || sh.entity_type() != r.et) fail("assignment", "assigned vector has other metadata");
          size_t n3 = 0; for (auto it = v.cbegin(); it != v.cend(); ++it) ++n3; if (n3 != n2) fail("iteration", "iterating over a vector visits another number of values");
          v.clear(); if (v.size()) fail("vector-size", "cleared vector is not empty");
        }); });
        break;
      }
      case O_PRINT: {  // every vector with one value per entity: its name, its kind and its values
        std::ostringstream os; os << S; std::string all = os.str(); size_t at = 0;
        for (auto& x : reg) {
          if (x.multi) continue;
          size_t q = all.find("\"" + x.name + "\"", at);
          if (q == std::string::npos) failf("print", "printing the state leaves out \"%s\"", x.name.c_str());
          at = q + x.name.size() + 2;
          size_t e = all.find('\n', at);
          if (e == std::string::npos || all.substr(at, e - at).find(Jali::Entity_kind_string(x.k)) == std::string::npos) failf("print", "vector \"%s\" is printed without its kind of entity", x.name.c_str());
          std::ostringstream ws;
          with_type(x.T, [&](auto tg) { typedef typename decltype(tg)::type T; with_domain(w, x.dom, [&](auto dt, auto) { typedef typename decltype(dt)::type D; auto* v = uni<T, D>(x.sp); if (v) for (auto it = v->cbegin(); it != v->cend(); ++it) { using Jali::operator<<; ws << *it << " "; } }); });
          auto tokens = [](const std::string& s) { std::istringstream is(s); std::string t, o; while (is >> t) o += t + " "; return o; };
          size_t nx = std::string::npos; for (size_t j = 0; j < reg.size(); ++j) if (&reg[j] > &x && !reg[j].multi) { nx = all.find("\"" + reg[j].name + "\"", e); break; }
          std::string got = " " + tokens(all.substr(e, nx == std::string::npos ? nx : nx - e)), want = " " + tokens(ws.str());
          if (got.find(want) == std::string::npos) failf("print", "the values of \"%s\" are not printed in their order", x.name.c_str());
          if (x.val[0].size() && got.find(" " + std::to_string(x.val[0].size()) + " ") == std::string::npos) failf("print", "the number of values of \"%s\" is not printed", x.name.c_str());
          at = e;
        }
        break;
      }
      default: check_registry(w, st, true); break;
    }
  }
  for (int st = 0; st < w.ns; ++st) check_registry(w, st, true);
  Hash h; h.add(w.reg[0].size()); for (int st = 0; st < w.ns; ++st) for (auto& r : w.reg[st]) { h.add_s(r.name); h.add((uint64_t)r.k); h.add((uint64_t)r.T); h.add((uint64_t)r.dom); } state_hash(h.h);
  if (nadded > 1) note_nontrivial();
  if (w.ns == 2) {  // the other state goes away; the vectors of this one stay
    w.st[1].reset(); check_registry(w, 0, true);
    for (auto& r : w.reg[1]) if (!r.multi || r.val.size()) check_values(w, r, "after its state is gone");
  }
  (void)nrepeat;
}

namespace sim {
extern const Workload workload = {
    "C11", names, NOPS, generate, run,
    "one case = one simulated run: one or two states on one or two meshes (possibly one rank of a distributed mesh, with tiles and materials), then a history of additions (empty, from arrays, uniform, single- and multi-valued, six element types, meshes and tiles as domains), repeated additions, copies between states and meshes, writes through every kind of access, lookups and iterations, some with a failing allocation, compared after every step with a list of records; non-trivial when at least two vectors were registered",
    "State (registry, lookups, iterators), UniStateVector, MultiStateVector, Mesh, MeshTile, MeshSet, Mesh_simple",
    "mesh framework for polygonal/polyhedral and distributed meshes (SimMesh, behind the abstract Mesh interface), MPI communicator",
    "Entity_type::ALL and Entity_kind::ANY_KIND in a lookup match vectors of any type or kind|one name and kind is always used with one parallel type|values copied from a mesh with another number of entities are compared as far as both have them|heap contents and allocator are simulated",
    true};
}
