// C13: field import/export round-trips; storage failures never invent data.
#include "stateref.hpp"
using namespace simm;
using namespace sim;
using Jali::Mesh; using Jali::MeshTile; using Jali::State;
template <class T, class D> using Uni = Jali::UniStateVector<T, D>;

enum { O_ADD = 0, O_WRITE, O_EXPORT, O_IMPORT, O_FRESH, O_PUTFILE, O_MULTI, NOPS };
static const char* const names[] = {"add-vector", "write-values", "export", "import", "new-state", "field-in-file", "add-multi-vector"};

static void generate(Plan& p, Rng& r) {
  gen_spec(p, r, "", r.chance(1, 2), true); p.cfg["bg"] = r.chance(1, 6); gen_tiles(p, r, "");
  if (p.cfg["mk"] > 1 && r.chance(2, 3)) { p.cfg["mk"] = r.below(2); for (const char* n : {"nx", "ny", "nz"}) p.cfg[n] = r.range(1, 3); }
  p.cfg["one_kind"] = r.below(2); p.cfg["torn"] = r.below(2);
  bool big = gen_big(p, r, "", 3);
  p.cfg["heap"] = r.below(5);
  int n = big ? (int)r.range(6, 10) : gen_len(r, 6, 28);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = i < 2 ? O_ADD : (int)r.below(NOPS);
    for (long& a : o.a) a = r.below(100000);
    p.ops.push_back(o);
    if ((o.kind == O_EXPORT || o.kind == O_IMPORT) && r.chance(1, 2)) {
      Fault f; f.where = i;
      if (r.chance(3, 4)) { f.kind = F_FIELD; f.k = r.below(1 << 20); f.n = r.range(1, 3); }   // pattern of failing transfers
      else { f.kind = F_ALLOC; f.k = r.below(20); f.n = 1; }
      p.faults.push_back(f);
    }
  }
}

struct Rec { std::string name; Entity_kind k; Entity_type et; int T; int dom; bool multi; std::vector<VD> val; SVP sp; };  // dom -1: mesh, -2: other mesh, else tile
struct World { Built b, other; std::shared_ptr<State> st[2]; std::vector<Rec> reg[2]; };

static int field_comps(int T) { return T == 2 ? 2 : T == 3 ? 3 : T == 4 ? 6 : 1; }
static std::vector<VD> read_vec(const SVP& sp, int T, int dom, const std::string& name) {
  std::vector<VD> o;
  with_type(T, [&](auto tg) {
    typedef typename decltype(tg)::type TY;
    auto go = [&](auto* v) { if (!v) failf("wrong-type", "vector \"%s\" is not a %s vector", name.c_str(), TNAME[T]); for (size_t i = 0; i < v->size(); ++i) o.push_back(flat1<TY>((*v)[(int)i])); };
    if (dom < 0) go(uni<TY, Mesh>(sp)); else go(uni<TY, MeshTile>(sp));
  });
  return o;
}
static void check_state(World& w, int st, const char* when) {
  State& S = *w.st[st];
  if (S.size() != (int)w.reg[st].size()) failf("registry-size", "%s: state has %d vectors, expected %zu", when, S.size(), w.reg[st].size());
  Hash h;
  for (size_t i = 0; i < w.reg[st].size(); ++i) {
    Rec& r = w.reg[st][i];
    if (S[(int)i] != r.sp) failf("registry", "%s: vector %zu of the state is another one than \"%s\"", when, i, r.name.c_str());
    if (r.multi) continue;
    std::vector<VD> v = read_vec(r.sp, r.T, r.dom, r.name);
    if (v != r.val) failf("state-data", "%s: vector \"%s\" of the state has other values", when, r.name.c_str());
    for (auto& x : v) for (double d : x) h.add_d(d);
  }
  sim::log(h.h); state_hash(h.h);
}
static VD flat_all(const std::vector<VD>& v) { VD o; for (auto& x : v) o.insert(o.end(), x.begin(), x.end()); return o; }

static void run(const Plan& p) {
  Quiet q;
  World w; MeshSpec s = get_spec(p, "");
  if (s.ntiles > 60) s.ntiles = 60;
  w.b = build_mesh(s); w.other = build_mesh(s);
  int nc = w.b.ref.nc_(); if (!nc) return;
  FieldStore none; FieldStore* F = w.b.sm ? w.b.sm->store.get() : &none;
  F->one_kind = p.get("one_kind", 0); F->torn = p.get("torn", 0);
  int dim = w.b.dim();
  for (auto& x : w.st) x = State::create(w.b.mesh);
  std::vector<Entity_kind> kinds; for (int k = 0; k < 7; ++k) if (spec_has(s, ALLKINDS[k])) kinds.push_back(ALLKINDS[k]);
  auto nents = [&](Entity_kind k) { return entities(*w.b.mesh, k, Entity_type::ALL).size(); };
  auto basic = [](Entity_kind k) { return k == Entity_kind::NODE || k == Entity_kind::FACE || k == Entity_kind::CELL; };
  auto values = [&](int T, size_t n, long seed) { std::vector<VD> o; with_type(T, [&](auto tg) { typedef typename decltype(tg)::type TY; for (size_t j = 0; j < n; ++j) o.push_back(flat1<TY>(TT<TY>::make(seed * 29 + (long)j))); }); return o; };
  int moved = 0, failed = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i]; Rng g(o.a[0] + 5);
    int st = (int)(o.a[1] % 2); State& S = *w.st[st]; auto& reg = w.reg[st];
    int id = (int)(o.a[2] % 9); std::string name = tricky("f", id); int T = id % NT;  // a name always has one element type
    Entity_kind K = g.chance(3, 4) ? kinds[g.below((long)kinds.size())] : Entity_kind::CELL;
    trace("[%zu] %s state %d \"%s\" %s kind %d", i, names[o.kind], st, name.c_str(), TNAME[T], (int)K);
    // failing fields of this transfer
    F->fail_read.clear(); F->fail_write.clear();
    for (auto& f : p.faults) if (f.kind == F_FIELD && f.where == (int)i) {
      Rng fr(f.k + 1);
      for (int x = 0; x < 9; ++x) for (auto kk : ALLKINDS) if (fr.below(4) < f.n) { F->fail_read.insert(FieldStore::key(tricky("f", x), (int)kk)); F->fail_write.insert(FieldStore::key(tricky("f", x), (int)kk)); }
    }
    switch (o.kind) {
      case O_ADD: {
        Rec r; r.name = name; r.k = K; r.T = T; r.multi = false; r.dom = -1;
        r.et = g.chance(1, 8) ? Entity_type::PARALLEL_OWNED : g.chance(1, 8) ? Entity_type::PARALLEL_GHOST : Entity_type::ALL;
        int ntl = (int)w.b.mesh->num_tiles(); if (ntl && g.chance(1, 6)) r.dom = (int)g.below(std::min(ntl, 60)); else if (g.chance(1, 10)) r.dom = -2;
        bool have = false; for (auto& x : reg) have |= !x.multi && x.name == r.name && x.k == r.k && x.dom == r.dom;
        if (have) break;
        with_type(T, [&](auto tg) {
          typedef typename decltype(tg)::type TY;
          auto add = [&](auto d, size_t n) { typedef typename decltype(d)::element_type D; std::vector<TY> data; for (size_t j = 0; j < n; ++j) data.push_back(TT<TY>::make(o.a[3] * 29 + (long)j)); TY const* cp = data.data(); S.add(r.name, d, r.k, r.et, cp); (void)sizeof(D); r.val = values(T, n, o.a[3]); };
          if (r.dom >= 0) { auto t = w.b.mesh->tiles()[r.dom]; add(t, entities(*t, r.k, r.et).size()); }
          else { auto m = r.dom == -1 ? w.b.mesh : w.other.mesh; add(m, entities(*m, r.k, r.et).size()); }
        });
        r.sp = S[S.size() - 1]; reg.push_back(r);
        break;
      }
      case O_MULTI: {
        std::string n = tricky("f", id + 1) ; bool have = false; for (auto& x : reg) have |= x.multi && x.name == n;
        if (have) break;
        Rec r; r.name = n; r.k = Entity_kind::CELL; r.et = Entity_type::ALL; r.T = 1; r.dom = -1; r.multi = true;
        if (S.num_materials() == 0) S.add_material("mat" + std::to_string(st), std::vector<int>(1, 0));
        S.add<double, Mesh, Jali::MultiStateVector>(n, w.b.mesh, Entity_kind::CELL, Entity_type::ALL, 3.5);
        r.sp = S[S.size() - 1]; reg.push_back(r);
        break;
      }
      case O_WRITE: {
        if (reg.empty()) break;
        Rec& r = reg[o.a[4] % reg.size()]; if (r.multi) break;
        with_type(r.T, [&](auto tg) { typedef typename decltype(tg)::type TY; auto wr = [&](auto& v) { for (size_t j = 0; j < v.size(); ++j) { TY t = TT<TY>::make(o.a[3] * 7 + (long)j); v[(int)j] = t; r.val[j] = flat1(t); } }; if (r.dom < 0) wr(*uni<TY, Mesh>(r.sp)); else wr(*uni<TY, MeshTile>(r.sp)); });
        break;
      }
      case O_PUTFILE: {  // a field which some other program left in the file
        if (!w.b.sm || !basic(K) || T == 5) break;
        int nco = field_comps(T); if (nco != 1 && nco != dim && nco != dim * (dim + 1) / 2) break;
        if (F->find(name, (int)K)) break;
        if (F->one_kind) { bool u = false; for (auto& x : F->f) u |= x.name == name; if (u) break; }
        FieldStore::F f; f.name = name; f.kind = (int)K; f.ncomp = nco; f.type = FieldStore::type_of(T == 0, nco, dim); f.data = flat_all(values(T, nents(K), o.a[3]));
        F->f.push_back(f);
        break;
      }
      case O_FRESH: { w.st[st] = State::create(w.b.mesh); reg.clear(); break; }
      case O_EXPORT: {
        std::vector<FieldStore::F> want = F->f, before = F->f;
        std::set<std::string> optional;  // may or may not be exported
        auto wfind = [&](const std::string& n, int k) -> FieldStore::F* { for (auto& x : want) if (x.name == n && x.kind == k) return &x; return nullptr; };
        if (w.b.sm) for (auto& r : reg) {
          if (r.multi || r.T == 5 || r.dom != -1) continue;
          if (r.val.size() != nents(r.k)) { if (r.val.size()) probe("export of a vector on part of the entities"); continue; }
          std::string key = FieldStore::key(r.name, (int)r.k);
          if (!basic(r.k) || r.et != Entity_type::ALL) optional.insert(key);
          if (F->fail_write.count(key)) { ++failed; continue; }
          int nco = field_comps(r.T); if (nco != 1 && nco != dim && nco != dim * (dim + 1) / 2) continue;
          FieldStore::F* f = wfind(r.name, (int)r.k);
          if (!f) { bool used = false; if (F->one_kind) for (auto& x : want) used |= x.name == r.name; if (used) continue; FieldStore::F n; n.name = r.name; n.kind = (int)r.k; n.ncomp = nco; n.type = FieldStore::type_of(r.T == 0, nco, dim); want.push_back(n); f = &want.back(); }
          f->data = flat_all(r.val); ++moved;
        }
        bool threw = false;
        AllocFault af(p, (int)i);
        try { S.export_to_mesh(); } catch (const std::bad_alloc&) { af.end(); if (!af.fired) fail("spurious-error", "export ran out of memory"); threw = true; }
        af.end();
        if (af.fired && !threw) fail("failure-swallowed", "allocation failure was not reported");
        auto in = [](std::vector<FieldStore::F>& v, const FieldStore::F& x) -> FieldStore::F* { for (auto& y : v) if (y.name == x.name && y.kind == x.kind) return &y; return nullptr; };
        bool anyopt = F->one_kind && !optional.empty();
        for (auto& x : F->f) {
          FieldStore::F *e = in(want, x), *b = in(before, x);
          bool isnew = e && e->data == x.data && e->type == x.type && e->ncomp == x.ncomp, isold = b && b->data == x.data && b->type == x.type;
          if (!isnew && !isold) {
            if (anyopt && !e) continue;
            failf("exported-data", "field \"%s\" on kind %d in the storage has data which are neither those exported nor the earlier ones", x.name.c_str(), x.kind);
          }
          if (!isnew && !threw && !optional.count(FieldStore::key(x.name, x.kind)) && !anyopt) failf("not-exported", "field \"%s\" on kind %d in the storage was not updated", x.name.c_str(), x.kind);
        }
        if (!threw) for (auto& x : want) if (!in(F->f, x) && !optional.count(FieldStore::key(x.name, x.kind)) && !anyopt) failf("not-exported", "vector \"%s\" on kind %d was not exported", x.name.c_str(), x.kind);
        for (auto& x : before) if (!in(F->f, x)) failf("lost-field", "field \"%s\" vanished from the storage", x.name.c_str());
        Hash h; for (auto& x : F->f) { h.add_s(x.name); for (double d : x.data) h.add_d(d); } sim::log(h.h);
        break;
      }
      default: {
        size_t n0 = reg.size(); bool threw = false;
        std::vector<FieldStore::F> store = F->f;
        AllocFault af(p, (int)i);
        try { S.init_from_mesh(); } catch (const std::bad_alloc&) { af.end(); if (!af.fired) fail("spurious-error", "import ran out of memory"); threw = true; }
        af.end();
        if (af.fired && !threw) fail("failure-swallowed", "allocation failure was not reported");
        std::set<std::string> arrived;
        for (int j = (int)n0; j < S.size(); ++j) {
          SVP sp = S[j]; const FieldStore::F* f = nullptr;
          for (auto& x : store) if (x.name == sp->name() && x.kind == (int)sp->entity_kind()) f = &x;
          if (!f) failf("invented-field", "import added vector \"%s\", which the storage does not have", sp->name().c_str());
          std::string key = FieldStore::key(f->name, f->kind);
          if (F->fail_read.count(key)) failf("invented-data", "import presents field \"%s\", which could not be read, as data", f->name.c_str());
          if (!arrived.insert(key).second) failf("duplicate-field", "import added field \"%s\" twice", f->name.c_str());
          Rec r; r.name = f->name; r.k = (Entity_kind)f->kind; r.et = sp->entity_type(); r.multi = false; r.dom = -1; r.sp = sp;
          r.T = f->type == "INT" ? 0 : f->ncomp == 1 ? 1 : f->ncomp == 2 ? 2 : f->ncomp == 3 ? 3 : 4;
          if (r.et != Entity_type::ALL || sp->type() != Jali::StateVector_type::UNIVAL) failf("imported-type", "imported vector \"%s\" has another type", r.name.c_str());
          bool ism = false; with_type(r.T, [&](auto tg) { typedef typename decltype(tg)::type TY; auto* v = uni<TY, Mesh>(sp); ism = v && v->domain() == w.b.mesh; });
          if (!ism) failf("imported-type", "imported vector \"%s\" is not a %s vector on the mesh", r.name.c_str(), TNAME[r.T]);
          r.val = read_vec(sp, r.T, -1, r.name);
          if (flat_all(r.val) != f->data) failf("imported-data", "imported vector \"%s\" has other values than the stored field", r.name.c_str());
          for (size_t x = 0; x < n0; ++x) if (!reg[x].multi && reg[x].dom == -1 && reg[x].name == r.name && reg[x].k == r.k && reg[x].T == r.T) failf("duplicate-field", "import added field \"%s\" although the state has it", r.name.c_str());
          reg.push_back(r); ++moved;
        }
        if (!threw) for (auto& f : store) {
          if (!basic((Entity_kind)f.kind)) continue;
          std::string key = FieldStore::key(f.name, f.kind); bool have = arrived.count(key) != 0;
          for (size_t x = 0; x < n0; ++x) have |= !reg[x].multi && reg[x].dom == -1 && reg[x].name == f.name && (int)reg[x].k == f.kind;
          if (F->fail_read.count(key)) { ++failed; probe("a field could not be read"); continue; }
          if (!have) failf("not-imported", "field \"%s\" of the storage was not imported", f.name.c_str());
        }
        if (F->f.size() != store.size()) fail("storage-changed", "import changed the storage");
        for (size_t x = 0; x < store.size(); ++x) if (F->f[x].data != store[x].data) fail("storage-changed", "import changed the storage");
        break;
      }
    }
    check_state(w, 0, names[o.kind]); check_state(w, 1, names[o.kind]);
  }
  if (failed) probe("transfer with failing fields");
  if (moved > 2) note_nontrivial();
}

namespace sim {
extern const Workload workload = {
    "C13", names, NOPS, generate, run,
    "one case = one simulated run: two states on one mesh and a simulated field storage (possibly filled by another program), then a history of adding and writing vectors, exports and imports in which a random set of fields cannot be read or written (reads may be torn) or an allocation fails; after every step both states and the storage are compared with a model; non-trivial when at least three fields were transferred",
    "State (init_from_mesh, export_to_mesh, registry), UniStateVector, Mesh, MeshTile, Mesh_simple (which has no storage)",
    "field storage of the mesh framework (SimMesh: an in-memory disk with failing and torn transfers), MPI communicator",
    "a failing write leaves the stored field as it was|a failing read may have overwritten part of the buffer|vectors on part of the entities, on kinds other than node, face and cell, on tiles and of user types need not be exported, but nothing wrong may be stored for them|heap contents and allocator are simulated",
    true};
}
