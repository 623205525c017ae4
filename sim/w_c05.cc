// C05: tiles partition the mesh and carry exactly the requested halos.
#include "meshcfg.hpp"
#include "Region.hh"
#include "BoxRegion.hh"
using namespace simm;
using namespace sim;

enum { O_SET = 0, O_QUERY, O_TILE, O_MASTER, O_EDITSET, NOPS };
static const char* const names[] = {"make-mesh-set", "tile-set-query", "make-tile", "check-tile", "edit-mesh-set"};

static void generate(Plan& p, Rng& r) {
  gen_spec(p, r, "", true, true);
  if (r.chance(1, 3)) gen_spec(p, r, "", false, true);
  gen_tiles(p, r, ""); p.cfg["surf"] = r.chance(1, 6) ? r.range(1, 2) : 0;
  if (r.chance(1, 4)) p.cfg["ntiles"] = 0;  // all tiles made by hand
  bool big = gen_big(p, r, "", 2);
  p.cfg["bg"] = r.chance(1, 6);
  if (r.chance(1, 8)) {  // blocks of a regular mesh
    auto& c = p.cfg;
    if (c["mk"] == MK_SIMPLE1) c["mk"] = MK_SIMPLE3;
    if (!big) { c["nx"] = r.range(1, 6); c["ny"] = r.range(1, 5); c["nz"] = r.range(1, 3); if (c["mk"] == MK_2D) c["nz"] = 1; }
    c["part"] = 2; c["shape"] = 0; c["perturb"] = 0; c["faces"] = 1; c["surf"] = 0; c["nranks"] = 1; c["rank"] = 0; c["bg"] = 0;
    c["ntiles"] = r.range(1, std::min(12L, c["nx"] * c["ny"] * c["nz"]));
  }
  p.cfg["heap"] = r.below(5);
  p.cfg["box"] = r.chance(1, 2);
  int n = big ? (int)r.range(0, 10) : gen_len(r, 0, 14);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = (int)r.below(NOPS);
    for (long& a : o.a) a = r.below(1000);
    p.ops.push_back(o);
  }
}

// the set model: name -> kind index, members in mesh order
struct ModelSet { std::string name; int kind; std::vector<int> ids; std::shared_ptr<Jali::MeshSet> real; };
// the tile model
struct ModelTile { std::vector<int> owned; int halo; std::set<int> own[7], ghost[7]; bool left_out[7] = {false, false, false, false, false, false, false}; };

struct World {
  Built b;
  std::vector<ModelSet> sets;
  std::vector<ModelTile> tiles;
  std::vector<int> master[7];  // expected master tile of each entity (for kinds with ownership)
  int nsets = 0;
};

static bool has_kind(const World& w, int k) {
  const MeshSpec& s = w.b.spec;
  bool sub = s.sub > 0;
  switch (ALLKINDS[k]) {
    case Entity_kind::EDGE: return s.edges || sub;
    case Entity_kind::FACE: return s.faces || sub;
    case Entity_kind::SIDE: return s.sub >= 1;
    case Entity_kind::WEDGE: return s.sub >= 2;
    case Entity_kind::CORNER: return s.sub >= 3;
    default: return true;
  }
}
static std::vector<int> ents_of_cell(const World& w, int k, int c) {
  L l;
  switch (ALLKINDS[k]) {
    case Entity_kind::NODE: return w.b.ref.cn[c];
    case Entity_kind::EDGE: return w.b.ref.ce[c];
    case Entity_kind::FACE: return w.b.ref.cf[c];
    case Entity_kind::SIDE: w.b.mesh->cell_get_sides(c, &l); return l;
    case Entity_kind::WEDGE: w.b.mesh->cell_get_wedges(c, &l); return l;
    case Entity_kind::CORNER: w.b.mesh->cell_get_corners(c, &l); return l;
    default: return {c};
  }
}
static std::set<int> halo_of(const World& w, const std::vector<int>& owned, int layers) {
  std::set<int> all(owned.begin(), owned.end()), front = all, out;
  for (int l = 0; l < layers; ++l) {
    std::set<int> nx;
    for (int c : front) for (int d : w.b.ref.nadj[c]) if (!all.count(d)) nx.insert(d);
    all.insert(nx.begin(), nx.end()); out.insert(nx.begin(), nx.end());
    front = nx;
  }
  return out;
}
static int real_master(const World& w, int k, int e) {
  const Jali::Mesh& m = *w.b.mesh;
  switch (ALLKINDS[k]) {
    case Entity_kind::NODE: return m.master_tile_ID_of_node(e);
    case Entity_kind::EDGE: return m.master_tile_ID_of_edge(e);
    case Entity_kind::FACE: return m.master_tile_ID_of_face(e);
    case Entity_kind::SIDE: return m.master_tile_ID_of_side(e);
    case Entity_kind::WEDGE: return m.master_tile_ID_of_wedge(e);
    case Entity_kind::CORNER: return m.master_tile_ID_of_corner(e);
    default: return m.master_tile_ID_of_cell(e);
  }
}

// compares tile t with what it must be, given the tiles made before it
static void check_tile(World& w, int t, const char* when) {
  const Jali::MeshTile& T = *w.b.mesh->tiles()[t];
  if (T.ID() != t) failf("tile-id", "%s: tile %d of the mesh reports ID %d", when, t, T.ID());
  ModelTile& M = w.tiles[t];
  std::set<int> halo = halo_of(w, M.owned, M.halo);
  for (int k = 0; k < 7; ++k) {
    std::vector<int> own = entities(T, ALLKINDS[k], Entity_type::PARALLEL_OWNED), gh = entities(T, ALLKINDS[k], Entity_type::PARALLEL_GHOST),
                     all = entities(T, ALLKINDS[k], Entity_type::ALL);
    for (int q = 0; q < 3; ++q) {
      int cnt = num_by_template(T, ALLKINDS[k], PTYPES[q]), cnt2 = (int)T.num_entities(ALLKINDS[k], PTYPES[q]);
      int want = (int)(q == 0 ? own : q == 1 ? gh : all).size();
      if (cnt != want || cnt2 != want) failf("tile-counts", "%s: tile %d: %s %s: list has %d, counts say %d and %d", when, t, KINDNAME[k], PTNAME[q], want, cnt, cnt2);
    }
    if (!has_kind(w, k) || M.left_out[k]) {
      if (!own.empty() || !gh.empty() || !all.empty()) failf("tile-unrequested", "%s: tile %d lists %ss that were not requested", when, t, KINDNAME[k]);
      continue;
    }
    std::vector<int> cat = own; cat.insert(cat.end(), gh.begin(), gh.end());
    if (sorted(cat) != sorted(all)) failf("tile-all", "%s: tile %d: all %ss is not owned plus ghost", when, t, KINDNAME[k]);
    std::set<int> so(own.begin(), own.end()), sg(gh.begin(), gh.end());
    if (so.size() != own.size() || sg.size() != gh.size()) failf("tile-duplicates", "%s: tile %d repeats a %s: owned %s ghost %s", when, t, KINDNAME[k], str(own).c_str(), str(gh).c_str());
    std::set<int> mo, around;
    for (int c : M.owned) for (int e : ents_of_cell(w, k, c)) mo.insert(e);
    for (int c : M.owned) for (int e : ents_of_cell(w, k, c)) around.insert(e);
    for (int c : halo) for (int e : ents_of_cell(w, k, c)) around.insert(e);
    // owned here: entities of the owned cells that no earlier tile owns
    std::set<int> want_own;
    for (int e : mo) if (!M.own[k].empty() || w.master[k].empty() || w.master[k][e] < 0 || w.master[k][e] == t) want_own.insert(e);
    if (!M.own[k].empty()) want_own = M.own[k];
    if (so != want_own) failf("tile-owned", "%s: tile %d owned %ss are %s, expected %s", when, t, KINDNAME[k], str(sorted(own)).c_str(), str(std::vector<int>(want_own.begin(), want_own.end())).c_str());
    std::set<int> want_gh;
    for (int e : around) if (!want_own.count(e)) want_gh.insert(e);
    if (sg != want_gh) failf("tile-ghost", "%s: tile %d (halo %d, owned cells %s): ghost %ss are %s, expected %s", when, t, M.halo, str(M.owned).c_str(), KINDNAME[k], str(sorted(gh)).c_str(), str(std::vector<int>(want_gh.begin(), want_gh.end())).c_str());
    for (int e : own) if (real_master(w, k, e) != t) failf("tile-master", "%s: %s %d is owned by tile %d but reports master tile %d", when, KINDNAME[k], e, t, real_master(w, k, e));
    M.own[k] = so; M.ghost[k] = sg;
    if (w.master[k].empty()) w.master[k].assign(w.b.mesh->num_entities(ALLKINDS[k], Entity_type::ALL), -1);
    for (int e : own) w.master[k][e] = t;
    Hash h; h.add(k); hash_list(h, own); hash_list(h, gh); log(h.h); state_hash(h.h);
  }
}

static void query(World& w, ModelSet& s, int t) {
  const Jali::MeshTile& T = *w.b.mesh->tiles()[t];
  for (int q = 0; q < 3; ++q) {
    std::vector<int> tl = entities(T, ALLKINDS[s.kind], PTYPES[q]);
    std::set<int> ts(tl.begin(), tl.end());
    std::vector<int> want;
    for (int e : s.ids) if (ts.count(e)) want.push_back(e);
    L got = {-7, -7};
    T.get_set_entities(s.name, ALLKINDS[s.kind], PTYPES[q], &got);
    if (sorted(got) != sorted(want)) failf("tile-set", "tile %d: %s %ss of set %s are %s, expected %s", t, PTNAME[q], KINDNAME[s.kind], s.name.c_str(), str(sorted(got)).c_str(), str(sorted(want)).c_str());
    Hash h; hash_list(h, sorted(got)); log(h.h);
    if (!want.empty() && want.size() < s.ids.size()) probe("set partly in tile");
  }
}

static void run(const Plan& p) {
  World w;
  MeshSpec s = get_spec(p, "");
  w.b = build_mesh(s);
  Jali::Mesh& m = *w.b.mesh;
  std::vector<int> owned_cells = entities(m, Entity_kind::CELL, Entity_type::PARALLEL_OWNED);
  int nt = s.ntiles;
  trace("mesh kind %d, %zu owned cells, %d tiles requested, halo %d, partitioner %d", s.mk, owned_cells.size(), nt, s.halo, s.part);
  if ((int)m.num_tiles() != nt || (int)m.tiles().size() != nt) failf("tile-count", "asked for %d tiles, mesh has %d (list %zu)", nt, m.num_tiles(), m.tiles().size());
  if (nt == 0) for (int c : owned_cells) if (m.master_tile_ID_of_cell(c) != -1) failf("tile-master", "no tiles, yet cell %d has master tile %d", c, m.master_tile_ID_of_cell(c));
  // the owned cells of the tiles partition the owned cells of the mesh
  std::map<int, int> seen;
  for (int t = 0; t < nt; ++t) {
    ModelTile M; M.halo = s.halo; M.owned = entities(*m.tiles()[t], Entity_kind::CELL, Entity_type::PARALLEL_OWNED);
    for (int c : M.owned) {
      if (seen.count(c)) failf("tile-partition", "cell %d is owned by tiles %d and %d", c, seen[c], t);
      seen[c] = t;
      if (c < 0 || c >= (int)w.b.ref.cghost.size() || w.b.ref.cghost[c]) failf("tile-partition", "tile %d owns cell %d which is not an owned cell of the mesh", t, c);
    }
    w.tiles.push_back(M);
  }
  if (nt && seen.size() != owned_cells.size()) failf("tile-partition", "%zu of %zu owned cells are in a tile (partitioner %d, %d tiles)", seen.size(), owned_cells.size(), s.part, nt);
  // on a regular grid the block partitioner makes boxes of cells, none of them empty
  if (partitioner(s.part) == Jali::Partitioner_type::BLOCK && s.faces && s.nranks == 1 && s.surf == 0 && nt <= (int)owned_cells.size() &&
      (s.mk == MK_SIMPLE3 || (s.mk <= MK_3D && s.shape == 0 && !s.perturb))) {
    std::vector<JaliGeometry::Point> cen;
    for (int c : owned_cells) cen.push_back(m.cell_centroid(c));
    for (int t = 0; t < nt; ++t) {
      const std::vector<int>& T = w.tiles[t].owned;
      if (T.empty()) failf("tile-block", "tile %d of %d made by the block partitioner from a regular mesh of %zu cells is empty", t, nt, owned_cells.size());
      size_t in = 0;
      for (auto& x : cen) {
        bool inside = true;
        for (int d = 0; d < (int)x.dim(); ++d) {
          double a = 1e300, b = -1e300;
          for (int c : T) { double v = m.cell_centroid(c)[d]; a = std::min(a, v); b = std::max(b, v); }
          if (x[d] < a - 1e-9 || x[d] > b + 1e-9) inside = false;
        }
        if (inside) ++in;
      }
      if (in != T.size()) failf("tile-block", "tile %d of %d made by the block partitioner from a regular mesh is no box of cells: it has %zu cells, the box around it %zu", t, nt, T.size(), in);
    }
    if (nt > 2) probe("blocks of a regular mesh");
  }
  for (int t = 0; t < nt; ++t) check_tile(w, t, "after creation");
  // every entity of an owned cell has exactly one owner (disjointness and cover)
  if (nt) for (int k = 0; k < 7; ++k) if (has_kind(w, k)) {
    std::map<int, int> owner;
    for (int t = 0; t < nt; ++t) for (int e : w.tiles[t].own[k]) { if (owner.count(e)) failf("tile-disjoint", "%s %d is owned by tiles %d and %d", KINDNAME[k], e, owner[e], t); owner[e] = t; }
    for (int c : owned_cells) for (int e : ents_of_cell(w, k, c)) if (!owner.count(e)) failf("tile-cover", "%s %d of owned cell %d is owned by no tile", KINDNAME[k], e, c);
  }
  if (nt > 1 && owned_cells.size() > 3) note_nontrivial();
  if (s.halo >= 2 && nt > 1) probe("halo of two or more layers");
  if (nt > (int)owned_cells.size()) probe("more tiles than cells");
  if (s.nranks > 1 && s.gl > 0) probe("mesh with parallel ghosts");

  // later history: more tiles, sets, queries
  std::set<int> used; for (auto& kv : seen) used.insert(kv.first);
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i];
    if (o.kind == O_SET) {
      int k = (int)(o.a[0] % 7);
      if (!has_kind(w, k)) continue;
      int n = (int)m.num_entities(ALLKINDS[k], Entity_type::ALL);
      if (!n) continue;
      Rng r(o.a[1] + 3);
      ModelSet S; S.kind = k;
      L own, gh;
      for (int e : entities(m, ALLKINDS[k], Entity_type::ALL)) if (r.chance(1 + (int)(o.a[2] % 4), 5)) {
        Entity_type et = m.entity_get_type(ALLKINDS[k], e);
        if (et != Entity_type::PARALLEL_OWNED && et != Entity_type::PARALLEL_GHOST) continue;  // sets hold no boundary ghosts
        (et == Entity_type::PARALLEL_OWNED ? own : gh).push_back(e);
        S.ids.push_back(e);
      }
      char nm[16]; snprintf(nm, 16, "set%d", w.nsets++);
      S.name = nm;
      S.real = Jali::make_meshset(S.name, m, ALLKINDS[k], own, gh, o.a[3] % 2 == 0);
      w.sets.push_back(S);
      trace("[%zu] set %s of %zu %ss", i, nm, S.ids.size(), KINDNAME[k]);
    } else if (o.kind == O_EDITSET && !w.sets.empty()) {
      ModelSet& S = w.sets[o.a[0] % w.sets.size()];
      int n = (int)m.num_entities(ALLKINDS[S.kind], Entity_type::ALL);
      int e = (int)(o.a[1] % n);
      if (m.entity_get_type(ALLKINDS[S.kind], e) == Entity_type::BOUNDARY_GHOST) continue;
      auto it = std::find(S.ids.begin(), S.ids.end(), e);
      if (it == S.ids.end()) { S.real->add_entity(e); S.ids.push_back(e); }
      else { S.real->rem_entity(e); S.ids.erase(it); }
      trace("[%zu] edit set %s: entity %d", i, S.name.c_str(), e);
    } else if (o.kind == O_QUERY && !w.sets.empty() && !w.tiles.empty()) {
      query(w, w.sets[o.a[0] % w.sets.size()], (int)(o.a[1] % w.tiles.size()));
      trace("[%zu] query set %ld on tile %ld", i, o.a[0] % (long)w.sets.size(), o.a[1] % (long)w.tiles.size());
    } else if (o.kind == O_TILE && nt == 0 && w.tiles.size() < 6) {
      std::vector<int> cells;
      Rng r(o.a[0] + 17);
      for (int c : owned_cells) if (!used.count(c) && r.chance(1 + (int)(o.a[1] % 3), 4)) cells.push_back(c);
      if (cells.empty()) continue;
      r.shuffle(cells);
      // any of the kinds of the mesh may be left out of the tile (sides only together with wedges)
      bool lo = r.chance(1, 3), f = has_kind(w, 2) && !(lo && r.chance(1, 3)), e = has_kind(w, 1) && !(lo && r.chance(1, 3));
      bool sd = s.sub >= 1 && !(lo && r.chance(1, 2)), wd = s.sub >= 2 && !(lo && r.chance(1, 3)), cn = s.sub >= 3 && !(lo && r.chance(1, 3));
      ModelTile M; M.owned = cells; M.halo = (int)(o.a[2] % 4);
      bool req[7]; for (int k = 0; k < 7; ++k) { Entity_kind K = ALLKINDS[k]; req[k] = K == Entity_kind::FACE ? f : K == Entity_kind::EDGE ? e : K == Entity_kind::SIDE ? sd || wd : K == Entity_kind::WEDGE ? wd : K == Entity_kind::CORNER ? cn : true; M.left_out[k] = !req[k]; }
      if (lo && wd && !sd) probe("tile with wedges but no request for sides");
      auto T = Jali::make_meshtile(m, cells, M.halo, f, e, sd, wd, cn);
      for (int c : cells) used.insert(c);
      int t = (int)w.tiles.size();
      w.tiles.push_back(M);
      trace("[%zu] make tile %d with %zu cells, halo %d", i, t, cells.size(), M.halo);
      if ((int)m.num_tiles() != t + 1 || m.tiles()[t] != T) failf("tile-order", "tile made last is not the last tile of the mesh");
      if (entities(*T, Entity_kind::CELL, Entity_type::PARALLEL_OWNED) != cells) failf("tile-owned", "tile %d does not own the cells it was given", t);
      check_tile(w, t, "after make_meshtile");
      if (t > 0) note_nontrivial();
    } else if (o.kind == O_MASTER && !w.tiles.empty()) {
      check_tile(w, (int)(o.a[0] % w.tiles.size()), "later");
    }
  }
  for (size_t t = 0; t < w.tiles.size(); ++t) { check_tile(w, (int)t, "at the end"); for (auto& S : w.sets) query(w, S, (int)t); }
}

namespace sim {
extern const Workload workload = {
    "C05", names, NOPS, generate, run,
    "one case = one simulated run: a mesh (polygonal, polyhedral, surface, one rank of a distributed mesh, or the built-in framework; a few much larger) with a tile request, then a random history of tile and set operations; non-trivial when more than one tile exists over more than three cells",
    "Mesh (tiles, partitioning, METIS), MeshTile, MeshSet, Mesh_simple",
    "mesh framework for polygonal/polyhedral and distributed meshes (SimMesh, behind the abstract Mesh interface), MPI communicator",
    "heap contents and allocator are simulated (seeded garbage in fresh memory)|tiles made by hand own disjoint cells of the mesh's own cells",
    true};
}
