// C09: mesh sets behave as ordered sets under any history of edits.
#include "geomref.hpp"
#include "MeshSet.hh"
using namespace simm;
using namespace sim;
typedef std::shared_ptr<Jali::MeshSet> SetPtr;

enum { O_MAKE = 0, O_TEMP, O_ADD1, O_ADDN, O_REM1, O_REMN, O_MERGE, O_SUBTRACT, O_INTERSECT, O_COMPLEMENT, O_COPY, O_RENAME, O_QUERY, O_DROP, O_CLEAR, NOPS };
static const char* const names[] = {"make-set", "make-unregistered-set", "add-entity", "add-entities", "remove-entity", "remove-entities", "union", "subtract", "intersect", "complement", "copy", "rename", "query-mesh", "forget", "clear"};

static void generate(Plan& p, Rng& r) {
  gen_spec(p, r, "", r.chance(3, 4), true);
  if (p.cfg["mk"] <= 1) { p.cfg["nranks"] = r.range(1, 3); p.cfg["gl"] = r.range(0, 2); }
  p.cfg["two"] = r.chance(1, 3); p.cfg["bg"] = r.chance(1, 6);
  if (p.cfg["two"]) { gen_spec(p, r, "b.", r.chance(1, 2), false); }
  bool big = gen_big(p, r, "", 3);
  p.cfg["heap"] = r.below(5);
  int n = big ? (int)r.range(3, 10) : gen_len(r, 3, 24);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = i < 2 ? O_MAKE : (int)r.below(NOPS);
    for (long& a : o.a) a = r.below(100000);
    p.ops.push_back(o);
    if (r.chance(1, 12)) { Fault f; f.kind = F_ALLOC; f.where = i; f.k = r.below(12); f.n = 1; p.faults.push_back(f); }
  }
}

struct MSet {
  int mesh; Entity_kind kind; std::string name; bool registered;
  std::set<int> owned, ghost;
  SetPtr s;
};
struct World {
  Built b[2]; int nm = 1;
  std::vector<MSet> sets;                 // live handles of the harness
  std::vector<int> reg[2];                // registration order -> index into all
  std::vector<MSet> all;                  // every set ever, by id (model)
};

// --- model helpers: sets live in w.all and stay there while registered
static Entity_type etype(const Built& b, Entity_kind k, int e) {
  if (k == Entity_kind::SIDE || k == Entity_kind::WEDGE || k == Entity_kind::CORNER) return b.mesh->entity_get_type(k, e);
  int q = b.ref.ghost(k)[e];
  return q == 2 ? Entity_type::BOUNDARY_GHOST : q ? Entity_type::PARALLEL_GHOST : Entity_type::PARALLEL_OWNED;
}
static int count(const Built& b, Entity_kind k) { return (int)b.mesh->num_entities(k, Entity_type::ALL); }

static void check_set(const World& w, const MSet& m, const char* when) {
  const Jali::MeshSet& s = *m.s;
  std::vector<int> o(m.owned.begin(), m.owned.end()), g(m.ghost.begin(), m.ghost.end());
  const std::vector<int>&lo = s.entities<Entity_type::PARALLEL_OWNED>(), &lg = s.entities<Entity_type::PARALLEL_GHOST>(), &la = s.entities<Entity_type::ALL>();
  if (sorted(lo) != o) failf("owned-list", "%s: owned entities of set \"%s\" are %s, expected %s", when, m.name.c_str(), str(sorted(lo)).c_str(), str(o).c_str());
  if (sorted(lg) != g) failf("ghost-list", "%s: ghost entities of set \"%s\" are %s, expected %s", when, m.name.c_str(), str(sorted(lg)).c_str(), str(g).c_str());
  std::vector<int> cat(lo); cat.insert(cat.end(), lg.begin(), lg.end());
  if (la != cat) failf("total-list", "%s: total list of set \"%s\" is %s, expected owned then ghost %s", when, m.name.c_str(), str(la).c_str(), str(cat).c_str());
  if (s.num_entities(Entity_type::PARALLEL_OWNED) != o.size() || s.num_entities(Entity_type::PARALLEL_GHOST) != g.size() || s.num_entities(Entity_type::ALL) != cat.size() || s.num_entities() != cat.size() || s.num_entities(Entity_type::BOUNDARY_GHOST) != 0 || !s.entities<Entity_type::BOUNDARY_GHOST>().empty() ||
      s.num_entities(m.kind, Entity_type::PARALLEL_OWNED) != o.size() || s.num_entities(m.kind, Entity_type::ALL) != cat.size())
    failf("set-counts", "%s: set \"%s\" counts %u owned %u ghost %u in all, lists have %zu and %zu", when, m.name.c_str(), s.num_entities(Entity_type::PARALLEL_OWNED), s.num_entities(Entity_type::PARALLEL_GHOST), s.num_entities(Entity_type::ALL), o.size(), g.size());
  if (s.kind() != m.kind) failf("set-kind", "%s: set \"%s\" has kind %d, expected %d", when, m.name.c_str(), (int)s.kind(), (int)m.kind);
  if (s.name() != m.name) failf("set-name", "%s: set is named \"%s\", expected \"%s\"", when, s.name().c_str(), m.name.c_str());
  if (&m.s->mesh() != w.b[m.mesh].mesh.get()) failf("set-mesh", "%s: set \"%s\" belongs to another mesh", when, m.name.c_str());
  int n = count(w.b[m.mesh], m.kind);
  for (int e = 0; e < n; ++e) {
    bool in = m.owned.count(e) || m.ghost.count(e);
    int i = s.index_in_set(e);
    if (!in && i != -1) failf("set-index", "%s: set \"%s\" says that entity %d, not in it, has index %d", when, m.name.c_str(), e, i);
    if (in && (i < 0 || i >= (int)la.size() || la[i] != e)) failf("set-index", "%s: set \"%s\" gives index %d for entity %d of %s", when, m.name.c_str(), i, e, str(la).c_str());
  }
  Hash h; hash_list(h, sorted(lo)); hash_list(h, sorted(lg)); h.add((uint64_t)m.kind); sim::log(h.h);
}

static void check_mesh(World& w, int mi, Rng& r) {
  Jali::Mesh& m = *w.b[mi].mesh;
  const Jali::Mesh& cm = m;
  auto& ss = cm.sets();
  if (ss.size() != w.reg[mi].size() || cm.num_sets() != (int)w.reg[mi].size()) failf("mesh-sets", "mesh has %zu sets and counts %d, expected %zu", ss.size(), cm.num_sets(), w.reg[mi].size());
  for (size_t i = 0; i < ss.size(); ++i) if (ss[i] != w.all[w.reg[mi][i]].s) failf("mesh-sets", "set %zu of the mesh is \"%s\", expected \"%s\"", i, ss[i] ? ss[i]->name().c_str() : "(null)", w.all[w.reg[mi][i]].name.c_str());
  for (int k = 0; k < 7; ++k) {
    Entity_kind K = ALLKINDS[k];
    std::vector<SetPtr> want, got = cm.sets(K);
    for (int i : w.reg[mi]) if (w.all[i].kind == K) want.push_back(w.all[i].s);
    if (got != want || cm.num_sets(K) != (int)want.size()) failf("mesh-sets", "mesh has %zu %s sets and counts %d, expected %zu", got.size(), KINDNAME[k], cm.num_sets(K), want.size());
  }
  std::set<std::string> nm; nm.insert("no such set"); nm.insert("");
  for (auto& s : w.all) nm.insert(s.name);
  std::vector<int> out{-4, 5};
  for (auto& n : nm) for (int k = 0; k < 7; ++k) {
    Entity_kind K = ALLKINDS[k];
    std::vector<const MSet*> c;  // several sets of one name and kind: any of them
    for (int i : w.reg[mi]) if (w.all[i].kind == K && w.all[i].name == n) c.push_back(&w.all[i]);
    SetPtr f = cm.find_meshset(n, K);
    const MSet* hit = nullptr;
    for (auto* x : c) if (x->s == f) hit = x;
    if ((!c.empty() && !hit) || (c.empty() && f)) failf("find-set", "looking for %s set \"%s\" gives %s, %zu registered", KINDNAME[k], n.c_str(), f ? f->name().c_str() : "nothing", c.size());
    for (int q = 0; q < 3; ++q) {
      std::vector<int> want;
      if (hit) { if (q != 1) want.insert(want.end(), hit->owned.begin(), hit->owned.end()); if (q != 0) want.insert(want.end(), hit->ghost.begin(), hit->ghost.end()); }
      unsigned a = cm.get_set_size(n, K, PTYPES[q]), b2 = m.get_set_size(n, K, PTYPES[q]);
      cm.get_set_entities(n, K, PTYPES[q], &out);
      if (a != want.size() || b2 != want.size()) failf("set-size-by-name", "%s set \"%s\" has size %u/%u, expected %zu", KINDNAME[k], n.c_str(), a, b2, want.size());
      if (sorted(out) != sorted(want)) failf("set-entities-by-name", "%s %ss of set \"%s\" are %s, expected %s", PTNAME[q], KINDNAME[k], n.c_str(), str(sorted(out)).c_str(), str(sorted(want)).c_str());
    }
  }
  (void)r;
}

static void run(const Plan& p) {
  World w;
  MeshSpec s = get_spec(p, "");
  w.b[0] = build_mesh(s);
  if (w.b[0].ref.nc_() == 0) return;
  if (p.get("two", 0)) { w.b[1] = build_mesh(get_spec(p, "b.")); if (w.b[1].ref.nc_()) w.nm = 2; }
  // registered sets stay in w.all as long as the mesh lives; others can be dropped
  std::vector<int> live;  // indices into w.all of sets which can be used
  std::vector<Entity_kind> kinds[2];
  for (int mi = 0; mi < w.nm; ++mi) for (int k = 0; k < 7; ++k) if (spec_has(w.b[mi].spec, ALLKINDS[k]) && count(w.b[mi], ALLKINDS[k]) > 0) kinds[mi].push_back(ALLKINDS[k]);
  int ops_done = 0, edits = 0;
  auto pick = [&](long a) -> int { return live.empty() ? -1 : live[a % live.size()]; };
  auto partners = [&](const Op& o, int first, int maxn, Rng& g) {  // sets of the same mesh and kind, repeats allowed
    std::vector<int> c, v;
    for (int i : live) if (w.all[i].mesh == w.all[first].mesh && w.all[i].kind == w.all[first].kind) c.push_back(i);
    int n = (int)g.below(maxn + 1);
    for (int i = 0; i < n; ++i) v.push_back(c[g.below((long)c.size())]);
    return v;
  };
  auto add_model = [&](MSet m) { w.all.push_back(m); int id = (int)w.all.size() - 1; live.push_back(id); if (m.registered) w.reg[m.mesh].push_back(id); return id; };
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i]; Rng g(o.a[0] + 5);
    std::vector<std::pair<int, std::vector<int> > > snap;  // exact lists of every set, before
    for (int id : live) snap.push_back({id, w.all[id].s->entities<Entity_type::ALL>()});
    int touched = -1;
    trace("[%zu] %s", i, names[o.kind]);
    switch (o.kind) {
      case O_MAKE: case O_TEMP: {
        int mi = (int)(o.a[1] % w.nm);
        MSet m; m.mesh = mi; m.kind = kinds[mi][o.a[2] % kinds[mi].size()];
        m.name = tricky("set", o.a[3] % 9); m.registered = o.kind == O_MAKE;
        int n = count(w.b[mi], m.kind), dens = (int)(o.a[4] % 5);
        std::vector<int> lo, lg;
        for (int e = 0; e < n; ++e) if (g.below(4) < dens) { Entity_type t = etype(w.b[mi], m.kind, e); if (t == Entity_type::PARALLEL_OWNED) lo.push_back(e); else if (t == Entity_type::PARALLEL_GHOST) lg.push_back(e); }
        g.shuffle(lo); g.shuffle(lg);
        m.owned.insert(lo.begin(), lo.end()); m.ghost.insert(lg.begin(), lg.end());
        bool rev = o.a[5] % 3 != 0;
        AllocFault af(p, (int)i);
        try {
          m.s = m.registered ? Jali::make_meshset(m.name, *w.b[mi].mesh, m.kind, lo, lg, rev) : std::make_shared<Jali::MeshSet>(m.name, *w.b[mi].mesh, m.kind, lo, lg, rev);
        } catch (const std::bad_alloc&) { af.end(); if (!af.fired) fail("spurious-error", "making a set ran out of memory"); probe("set construction failed"); break; }
        af.end();
        if (af.fired) fail("failure-swallowed", "allocation failure was not reported");
        if (!m.s) fail("null-set", "no set was made");
        // the lists come in the given order
        add_model(m); touched = (int)w.all.size() - 1;
        break;
      }
      case O_ADD1: case O_ADDN: {
        int id = pick(o.a[1]); if (id < 0) break;
        MSet& m = w.all[id]; int n = count(w.b[m.mesh], m.kind);
        std::vector<int> add, rest;
        for (int e = 0; e < n; ++e) if (!m.owned.count(e) && !m.ghost.count(e)) rest.push_back(e);
        int only = o.kind == O_ADDN ? (int)(o.a[2] % 4) : 0;  // 1: owned only, 2: ghost only
        for (int e : rest) { bool gh = etype(w.b[m.mesh], m.kind, e) != Entity_type::PARALLEL_OWNED; if (only == 1 && gh) continue; if (only == 2 && !gh) continue; add.push_back(e); }
        g.shuffle(add);
        if (o.kind == O_ADD1) { if (add.size() > 1) add.resize(1); } else add.resize(g.below((long)add.size() + 1));
        if (add.empty() && o.kind == O_ADD1) break;
        AllocFault af(p, (int)i);
        try { if (o.kind == O_ADD1) m.s->add_entity(add[0]); else m.s->add_entities(add); }
        catch (const std::bad_alloc&) { af.end(); if (!af.fired) fail("spurious-error", "adding entities ran out of memory"); probe("adding entities failed"); check_set(w, m, "after a failed addition"); break; }
        af.end();
        if (af.fired) fail("failure-swallowed", "allocation failure was not reported");
        int no = 0, ng = 0;
        for (int e : add) if (etype(w.b[m.mesh], m.kind, e) == Entity_type::PARALLEL_OWNED) { m.owned.insert(e); ++no; } else if (etype(w.b[m.mesh], m.kind, e) == Entity_type::PARALLEL_GHOST) { m.ghost.insert(e); ++ng; } else probe("boundary ghosts are not added");
        if (no && ng) probe("owned and ghost entities added together");
        touched = id; ++edits; break;
      }
      case O_REM1: case O_REMN: {
        int id = pick(o.a[1]); if (id < 0) break;
        MSet& m = w.all[id]; int n = count(w.b[m.mesh], m.kind);
        std::vector<int> in(m.owned.begin(), m.owned.end()), rem; in.insert(in.end(), m.ghost.begin(), m.ghost.end());
        g.shuffle(in);
        rem.assign(in.begin(), in.begin() + g.below((long)in.size() + 1));
        if (g.chance(1, 3)) { rem.push_back((int)g.below(n)); probe("removal of an entity which may be absent"); }
        if (g.chance(1, 6) && !rem.empty()) rem.push_back(rem[0]);
        g.shuffle(rem);
        if (o.kind == O_REM1) { if (rem.empty()) break; rem.resize(1); }
        AllocFault af(p, (int)i);
        try { if (o.kind == O_REM1) m.s->rem_entity(rem[0]); else m.s->rem_entities(rem); }
        catch (const std::bad_alloc&) { af.end(); if (!af.fired) fail("spurious-error", "removing entities ran out of memory"); probe("removing entities failed"); check_set(w, m, "after a failed removal"); break; }
        af.end();
        if (af.fired) fail("failure-swallowed", "allocation failure was not reported");
        for (int e : rem) { m.owned.erase(e); m.ghost.erase(e); }
        touched = id; ++edits; break;
      }
      case O_MERGE: case O_SUBTRACT: case O_INTERSECT: case O_COMPLEMENT: {
        int id = pick(o.a[1]); if (id < 0) break;
        std::vector<int> v = partners(o, id, 3, g);
        bool temp = o.a[3] % 2;
        MSet m; m.mesh = w.all[id].mesh; m.kind = w.all[id].kind; m.registered = !temp;
        std::vector<SetPtr> in;
        if (o.kind != O_SUBTRACT) v.insert(v.begin() + g.below((long)v.size() + 1), id);
        for (int x : v) in.push_back(w.all[x].s);
        std::set<int> A = w.all[id].owned, G = w.all[id].ghost;
        if (o.kind == O_MERGE || o.kind == O_COMPLEMENT) for (int x : v) { A.insert(w.all[x].owned.begin(), w.all[x].owned.end()); G.insert(w.all[x].ghost.begin(), w.all[x].ghost.end()); }
        if (o.kind == O_SUBTRACT) for (int x : v) { for (int e : w.all[x].owned) A.erase(e); for (int e : w.all[x].ghost) G.erase(e); }
        if (o.kind == O_INTERSECT) for (int x : v) { auto cut = [](std::set<int>& a, const std::set<int>& b) { for (auto it = a.begin(); it != a.end();) if (b.count(*it)) ++it; else it = a.erase(it); }; cut(A, w.all[x].owned); cut(G, w.all[x].ghost); }
        if (o.kind == O_COMPLEMENT) {
          std::set<int> cA, cG; int n = count(w.b[m.mesh], m.kind);
          for (int e = 0; e < n; ++e) { if (etype(w.b[m.mesh], m.kind, e) == Entity_type::PARALLEL_OWNED) { if (!A.count(e)) cA.insert(e); } else if (etype(w.b[m.mesh], m.kind, e) == Entity_type::PARALLEL_GHOST && !G.count(e)) cG.insert(e); }
          A.swap(cA); G.swap(cG);
        }
        m.owned = A; m.ghost = G;
        AllocFault af(p, (int)i);
        try {
          m.s = o.kind == O_MERGE ? Jali::merge(in, temp) : o.kind == O_SUBTRACT ? Jali::subtract(w.all[id].s, in, temp) : o.kind == O_INTERSECT ? Jali::intersect(in, temp) : Jali::complement(in, temp);
        } catch (const std::bad_alloc&) { af.end(); if (!af.fired) fail("spurious-error", "a set operation ran out of memory"); probe("set operation failed"); break; }
        af.end();
        if (af.fired) fail("failure-swallowed", "allocation failure was not reported");
        if (!m.s) fail("null-set", "a set operation returned nothing");
        for (int x : live) if (w.all[x].s == m.s) failf("aliased-result", "%s returned one of its operands", names[o.kind]);
        m.name = m.s->name();
        for (int x : v) if (m.name.find(w.all[x].name) == std::string::npos) failf("result-name", "%s: the name \"%s\" of the result does not tell of operand \"%s\"", names[o.kind], m.name.c_str(), w.all[x].name.c_str());
        if (m.name.find(w.all[id].name) == std::string::npos) failf("result-name", "%s: the name \"%s\" of the result does not tell of operand \"%s\"", names[o.kind], m.name.c_str(), w.all[id].name.c_str());
        if (!G.empty() || (!w.all[id].ghost.empty())) probe("operation on sets with ghosts");
        add_model(m); touched = (int)w.all.size() - 1; ++edits;
        break;
      }
      case O_COPY: {
        int id = pick(o.a[1]); if (id < 0) break;
        MSet m = w.all[id]; m.registered = false;
        AllocFault af(p, (int)i);
        try { m.s = std::make_shared<Jali::MeshSet>(*w.all[id].s); }
        catch (const std::bad_alloc&) { af.end(); if (!af.fired) fail("spurious-error", "copying a set ran out of memory"); break; }
        af.end();
        if (af.fired) fail("failure-swallowed", "allocation failure was not reported");
        if (o.a[2] % 2) { m.s->set_name("copy"); m.name = "copy"; w.b[m.mesh].mesh->add_set(m.s); m.registered = true; }
        add_model(m); touched = (int)w.all.size() - 1; break;
      }
      case O_RENAME: { int id = pick(o.a[1]); if (id < 0) break; std::string n = tricky("set", o.a[3] % 9); w.all[id].s->set_name(n); w.all[id].name = n; touched = id; break; }
      case O_QUERY: check_mesh(w, (int)(o.a[1] % w.nm), g); break;
      case O_CLEAR: {  // an emptied set has no kind and no name
        int id = pick(o.a[1]); if (id < 0 || o.a[2] % 2) break;
        MSet& m = w.all[id]; int n = count(w.b[m.mesh], m.kind);
        m.s->clear();
        if (!m.s->entities<Entity_type::ALL>().empty() || !m.s->entities<Entity_type::PARALLEL_OWNED>().empty() || !m.s->entities<Entity_type::PARALLEL_GHOST>().empty() || m.s->num_entities() || m.s->num_entities(Entity_type::PARALLEL_OWNED) || m.s->num_entities(Entity_type::PARALLEL_GHOST))
          failf("cleared-set", "set \"%s\" still has entities after it was cleared", m.name.c_str());
        for (int e = 0; e < n; ++e) if (m.s->index_in_set(e) != -1) failf("cleared-set", "set \"%s\" still has an index for entity %d after it was cleared", m.name.c_str(), e);
        m.owned.clear(); m.ghost.clear(); m.name = ""; m.kind = Entity_kind::UNKNOWN_KIND;
        live.erase(std::find(live.begin(), live.end(), id)); probe("set cleared");
        check_mesh(w, m.mesh, g);
        for (auto& sn : snap) if (sn.first == id) sn.second.clear();
        break;
      }
      default: {  // the harness lets go of an unregistered set
        std::vector<int> c; for (int x : live) if (!w.all[x].registered) c.push_back(x);
        if (c.empty()) break;
        int id = c[o.a[1] % c.size()]; live.erase(std::find(live.begin(), live.end(), id));
        std::weak_ptr<Jali::MeshSet> wk = w.all[id].s; w.all[id].s.reset(); w.all[id].name = "no such set";
        if (!wk.expired()) fail("set-retained", "a set which nobody holds is still alive");
        break;
      }
    }
    ++ops_done;
    if (touched >= 0) check_set(w, w.all[touched], names[o.kind]);
    for (auto& sn : snap) if (sn.first != touched && w.all[sn.first].s && w.all[sn.first].s->entities<Entity_type::ALL>() != sn.second)
      failf("operand-modified", "%s changed set \"%s\" from %s to %s", names[o.kind], w.all[sn.first].name.c_str(), str(sn.second).c_str(), str(w.all[sn.first].s->entities<Entity_type::ALL>()).c_str());
  }
  for (int id : live) check_set(w, w.all[id], "at the end");
  Rng g(1);
  for (int mi = 0; mi < w.nm; ++mi) check_mesh(w, mi, g);
  if (edits > 1 && live.size() > 1) note_nontrivial();
  Hash h; h.add(live.size()); for (int id : live) { h.add((uint64_t)w.all[id].kind); for (int e : w.all[id].owned) h.add(e); for (int e : w.all[id].ghost) h.add(e + 100000); } state_hash(h.h);
}

namespace sim {
extern const Workload workload = {
    "C09", names, NOPS, generate, run,
    "one case = one simulated run: one or two meshes (possibly one rank of a distributed mesh, with ghosts), then a history of set creation, additions, removals, clearing, unions, subtractions, intersections, complements, copies and renames, some with a failing allocation, compared after every step with a model of plain sets; non-trivial when at least two edits were made and two sets are live",
    "MeshSet, set operations, set registry of Mesh, Mesh (entity types and counts), Mesh_simple",
    "mesh framework for polygonal/polyhedral and distributed meshes (SimMesh, behind the abstract Mesh interface), MPI communicator",
    "callers do not add an entity which the set already holds (documented precondition)|heap contents and allocator are simulated",
    true};
}
