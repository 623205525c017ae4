// C08: topology queries are mutually consistent and history independent.
#include "geomref.hpp"
using namespace simm;
using namespace sim;

enum { O_QUERIES = 0, O_CELL, O_FACE, O_EDGE, O_NODE, O_LISTS, O_OTHER, NOPS };
static const char* const names[] = {"query-burst", "sweep-cells", "sweep-faces", "sweep-edges", "sweep-nodes", "check-lists", "use-other-mesh"};

static void generate(Plan& p, Rng& r) {
  gen_spec(p, r, "", r.chance(1, 2), true);
  if (r.chance(1, 2)) p.cfg["edges"] = 1;
  gen_tiles(p, r, "");
  if (r.chance(2, 3)) p.cfg["ntiles"] = 0;
  p.cfg["surf"] = r.chance(1, 6) ? r.range(1, 2) : 0;
  p.cfg["bg"] = r.chance(1, 4);
  p.cfg["two"] = r.chance(1, 3);
  if (p.cfg["two"]) gen_spec(p, r, "b.", false, false);
  bool big = gen_big(p, r, "", 2);
  p.cfg["heap"] = r.below(5);
  int n = big ? (int)r.range(1, 10) : gen_len(r, 1, 10);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = r.chance(1, 2) ? 0 : (int)r.below(NOPS);
    for (long& a : o.a) a = r.below(100000);
    p.ops.push_back(o);
  }
}

// output containers live as long as the run: every query must overwrite them
struct World { Built b; L l1, l2, l3; std::vector<Jali::dir_t> d; std::vector<int> map; int dim, sd; long asked = 0; };
static const char* PT(int q) { return PTNAME[q]; }

static std::vector<int> filt(const World& w, Entity_kind k, const IV& v, int q) {
  std::vector<int> o; const IV& g = w.b.ref.ghost(k);
  for (int x : v) if (q == 2 || g[x] == q) o.push_back(x);
  return o;
}
static void same(const char* cls, const char* what, int id, const std::vector<int>& got, const std::vector<int>& want) {
  if (sorted(got) != sorted(want)) failf(cls, "%s of %d are %s, expected %s", what, id, str(sorted(got)).c_str(), str(sorted(want)).c_str());
  Hash h; h.add(id); hash_list(h, sorted(got)); sim::log(h.h);
}
static std::string nm(const char* a, int q) { return std::string(PT(q)) + " " + a; }

static void ask_cell(World& w, int c, int what, int q) {
  const Jali::Mesh& m = *w.b.mesh; const Ref& r = w.b.ref; const MeshSpec& s = w.b.spec;
  bool F = spec_has(s, Entity_kind::FACE), E = spec_has(s, Entity_kind::EDGE);
  ++w.asked;
  switch (what) {
    case 0: m.cell_get_nodes(c, &w.l1); same("cell-nodes", "nodes of cell, i.e.", c, w.l1, r.cn[c]); break;
    case 1: if (!F) break;
      if (m.cell_get_num_faces(c) != r.cf[c].size()) failf("cell-faces", "cell %d has %u faces, expected %zu", c, m.cell_get_num_faces(c), r.cf[c].size());
      m.cell_get_faces(c, &w.l1, q == 1); same("cell-faces", "faces", c, w.l1, r.cf[c]); break;
    case 2: if (!F) break;
      m.cell_get_faces_and_dirs(c, &w.l1, q == 2 ? &w.d : &w.d, q == 1);
      same("cell-faces", "faces", c, w.l1, r.cf[c]);
      if (w.d.size() != w.l1.size()) failf("face-directions", "cell %d: %zu faces, %zu directions", c, w.l1.size(), w.d.size());
      for (size_t i = 0; i < w.l1.size(); ++i) {
        int k = (int)(std::find(r.cf[c].begin(), r.cf[c].end(), w.l1[i]) - r.cf[c].begin());
        if (w.d[i] != r.cd[c][k]) failf("face-directions", "face %d has direction %d in cell %d, expected %d", w.l1[i], (int)w.d[i], c, r.cd[c][k]);
      }
      break;
    case 3: if (!E) break;
      m.cell_get_edges(c, &w.l1); same("cell-edges", "edges", c, w.l1, r.ce[c]); break;
    case 4: if (!E || w.dim != 2 || r.cghost[c] == 2) break;
      m.cell_2D_get_edges_and_dirs(c, &w.l1, &w.d);
      same("cell-edges", "edges", c, w.l1, r.ce[c]);
      if (w.d.size() != w.l1.size()) failf("edge-directions", "cell %d: %zu edges, %zu directions", c, w.l1.size(), w.d.size());
      for (size_t i = 0; i < w.l1.size(); ++i) {  // direction 1: edge runs ccw around the cell
        int a = r.en[w.l1[i]][0], b = r.en[w.l1[i]][1], ok = 0;
        const IV& n = r.cn[c];
        for (size_t j = 0; j < n.size(); ++j) if (n[j] == a && n[(j + 1) % n.size()] == b) ok = 1;
        if (w.d[i] != (ok ? 1 : -1)) failf("edge-directions", "edge %d has direction %d in 2D cell %d, expected %d", w.l1[i], (int)w.d[i], c, ok ? 1 : -1);
      }
      break;
    case 5: {
      std::vector<int> want;
      for (int f : r.cf[c]) for (int c2 : r.fc[f]) if (c2 != c) want.push_back(c2);
      m.cell_get_face_adj_cells(c, PTYPES[q], &w.l1);
      same("face-neighbours", nm("face neighbours", q).c_str(), c, w.l1, filt(w, Entity_kind::CELL, want, q));
      if (q == 2 && F) {  // ALL: in the order of the faces
        m.cell_get_faces(c, &w.l2); size_t k = 0;
        for (int f : w.l2) for (int c2 : r.fc[f]) if (c2 != c) { if (k >= w.l1.size() || w.l1[k] != c2) failf("face-neighbours", "cell %d: neighbours are not in the order of its faces", c); ++k; }
      }
      break;
    }
    case 6: m.cell_get_node_adj_cells(c, PTYPES[q], &w.l1); same("node-neighbours", nm("node neighbours", q).c_str(), c, w.l1, filt(w, Entity_kind::CELL, r.nadj[c], q)); break;
    case 7: if (!F || r.cghost[c] == 2) break;
      for (int f : r.cf[c]) {
        int o = 0; V3 n = v3(m.face_normal(f, false, c, &o), w.sd), to = v3(m.face_centroid(f), w.sd) - v3(m.cell_centroid(c), w.sd);
        if (!(dot(n, to) > 0)) failf("outward-normal", "normal of face %d does not point out of cell %d", f, c);
        V3 nn = v3(m.face_normal(f), w.sd); int k = (int)(std::find(r.cf[c].begin(), r.cf[c].end(), f) - r.cf[c].begin());
        if (o != r.cd[c][k] || (s.surf < 2 && !close(n, (double)o * nn, 1 + len(n)))) failf("outward-normal", "face %d in cell %d: orientation %d does not relate outward and natural normals", f, c, o);
      }
      break;
    case 8: if (!E || !F || w.dim == 1) break;
      m.cell_get_edges(c, &w.l2);
      for (int f : r.cf[c]) {
        m.face_get_edges_and_dirs(f, &w.l1, nullptr);
        m.face_to_cell_edge_map(f, c, &w.map);
        if (w.map.size() != w.l1.size()) failf("edge-map", "face %d cell %d: map has %zu entries for %zu edges", f, c, w.map.size(), w.l1.size());
        for (size_t i = 0; i < w.map.size(); ++i) if (w.map[i] < 0 || w.map[i] >= (int)w.l2.size() || w.l2[w.map[i]] != w.l1[i]) failf("edge-map", "face %d cell %d: entry %zu is %d", f, c, i, w.map[i]);
      }
      break;
    default:
      for (int n : r.cn[c]) {
        if (!F) break;
        std::vector<int> want;
        for (int f : r.cf[c]) if (std::find(r.fn[f].begin(), r.fn[f].end(), n) != r.fn[f].end()) want.push_back(f);
        m.node_get_cell_faces(n, c, PTYPES[q], &w.l1);
        same("node-cell-faces", nm("cell faces at node", q).c_str(), n, w.l1, filt(w, Entity_kind::FACE, want, q));
      }
  }
}
static void ask_face(World& w, int f, int what, int q) {
  if (!spec_has(w.b.spec, Entity_kind::FACE)) return;
  const Jali::Mesh& m = *w.b.mesh; const Ref& r = w.b.ref; ++w.asked;
  if (what == 0) {
    m.face_get_nodes(f, &w.l1); same("face-nodes", "nodes of face, i.e.", f, w.l1, r.fn[f]);
    if (w.dim == 3) {  // same cyclic order
      size_t k = std::find(w.l1.begin(), w.l1.end(), r.fn[f][0]) - w.l1.begin();
      for (size_t i = 0; i < r.fn[f].size(); ++i) if (w.l1[(k + i) % w.l1.size()] != r.fn[f][i]) failf("face-nodes", "nodes of face %d are %s, not in the order %s", f, str(w.l1).c_str(), str(r.fn[f]).c_str());
    }
  } else if (what == 1) {
    m.face_get_cells(f, PTYPES[q], &w.l1); same("face-cells", nm("cells", q).c_str(), f, w.l1, filt(w, Entity_kind::CELL, r.fc[f], q));
    if (q == 2 && w.l1.size() == 2) {
      int d[2];
      for (int i = 0; i < 2; ++i) { m.cell_get_faces_and_dirs(w.l1[i], &w.l2, &w.d); size_t k = std::find(w.l2.begin(), w.l2.end(), f) - w.l2.begin(); if (k >= w.d.size()) failf("face-directions", "cell %d of face %d does not list it", w.l1[i], f); d[i] = w.d[k]; }
      if (d[0] + d[1] != 0) failf("face-directions", "face %d has directions %d and %d in its two cells", f, d[0], d[1]);
    }
  } else if (spec_has(w.b.spec, Entity_kind::EDGE) && w.dim > 1) {
    m.face_get_edges_and_dirs(f, &w.l1, &w.d, q == 1);
    same("face-edges", "edges of face, i.e.", f, w.l1, r.fe[f]);
    if (w.d.size() != w.l1.size()) failf("edge-directions", "face %d: %zu edges, %zu directions", f, w.l1.size(), w.d.size());
    if (w.dim == 3) for (size_t i = 0; i < w.l1.size(); ++i) {
      int a = r.en[w.l1[i]][0], b = r.en[w.l1[i]][1], ok = 0; const IV& n = r.fn[f];
      for (size_t j = 0; j < n.size(); ++j) if (n[j] == a && n[(j + 1) % n.size()] == b) ok = 1;
      if (w.d[i] != (ok ? 1 : -1)) failf("edge-directions", "edge %d has direction %d in face %d, expected %d", w.l1[i], (int)w.d[i], f, ok ? 1 : -1);
    } else if (w.d[0] != 1) failf("edge-directions", "the edge of 2D face %d has direction %d", f, (int)w.d[0]);
  }
}
static void ask_edge(World& w, int e) {
  if (!spec_has(w.b.spec, Entity_kind::EDGE)) return;
  ++w.asked;
  Entity_ID a = -5, b = -5; w.b.mesh->edge_get_nodes(e, &a, &b);
  if (a != w.b.ref.en[e][0] || b != w.b.ref.en[e][1]) failf("edge-nodes", "edge %d has nodes %d,%d, expected %d,%d", e, a, b, w.b.ref.en[e][0], w.b.ref.en[e][1]);
  sim::log((uint64_t)(a * 1000 + b));
}
static void ask_node(World& w, int n, int what, int q) {
  const Jali::Mesh& m = *w.b.mesh; const Ref& r = w.b.ref; ++w.asked;
  if (what == 0) { m.node_get_cells(n, PTYPES[q], &w.l1); same("node-cells", nm("cells at node", q).c_str(), n, w.l1, filt(w, Entity_kind::CELL, r.nc[n], q)); }
  else if (what == 1) { if (!spec_has(w.b.spec, Entity_kind::FACE)) return; m.node_get_faces(n, PTYPES[q], &w.l1); same("node-faces", nm("faces at node", q).c_str(), n, w.l1, filt(w, Entity_kind::FACE, r.nf[n], q)); }
  else {
    Point p; m.node_get_coordinates(n, &p);
    if (p.dim() != w.sd) failf("node-coords", "node %d has a point of dimension %d", n, (int)p.dim());
    double x[3] = {0, 0, 0};
    if (w.sd == 3) { std::array<double, 3> a; m.node_get_coordinates(n, &a); for (int i = 0; i < 3; ++i) x[i] = a[i]; }
    else if (w.sd == 2) { std::array<double, 2> a; m.node_get_coordinates(n, &a); for (int i = 0; i < 2; ++i) x[i] = a[i]; }
    else m.node_get_coordinates(n, x);
    for (int d = 0; d < w.sd; ++d) if (!close(p[d], r.X[n][d], 100) || x[d] != p[d]) failf("node-coords", "node %d is reported at %.17g and %.17g in direction %d, expected %.17g", n, p[d], x[d], d, r.X[n][d]);
  }
}
static void lists(World& w) {
  const Jali::Mesh& m = *w.b.mesh; const Ref& r = w.b.ref;
  if ((int)m.space_dimension() != w.sd || (int)m.manifold_dimension() != w.dim) failf("dimension", "dimensions %u and %u, expected %d and %d", m.space_dimension(), m.manifold_dimension(), w.sd, w.dim);
  for (int k = 0; k < 7; ++k) {
    if (k >= 3 && k <= 5) continue;  // sub-cells: C07
    Entity_kind K = ALLKINDS[k];
    bool has = spec_has(w.b.spec, K);
    int n = has ? r.count(K) : 0;
    for (int q = 0; q < 3; ++q) {
      std::vector<int> got = entities(m, K, PTYPES[q]), want;
      for (int i = 0; i < n; ++i) if (q == 2 || r.ghost(K)[i] == q) want.push_back(i);
      if (sorted(got) != want) failf("entity-lists", "%s %ss are %s, expected %s", PT(q), KINDNAME[k], str(got).c_str(), str(want).c_str());
      int c1 = num_by_template(m, K, PTYPES[q]), c2 = (int)m.num_entities(K, PTYPES[q]);
      if (c1 != (int)want.size() || c2 != (int)want.size()) failf("entity-counts", "%zu %s %ss listed, counted %d and %d", want.size(), PT(q), KINDNAME[k], c1, c2);
    }
    const IV& g = K == Entity_kind::NODE ? r.ng : K == Entity_kind::FACE ? r.fg : K == Entity_kind::EDGE ? r.eg : r.cg;
    std::set<int> gids;
    for (int i = 0; i < n; ++i) {
      Entity_type t = m.entity_get_type(K, i), want = r.ghost(K)[i] == 2 ? Entity_type::BOUNDARY_GHOST : r.ghost(K)[i] ? Entity_type::PARALLEL_GHOST : Entity_type::PARALLEL_OWNED;
      if (t != want) failf("entity-type", "%s %d has parallel type %d, expected %d", KINDNAME[k], i, (int)t, (int)want);
      const char* tn = want == Entity_type::BOUNDARY_GHOST ? "BOUNDARY_GHOST" : want == Entity_type::PARALLEL_GHOST ? "PARALLEL_GHOST" : "PARALLEL_OWNED";
      if (i < 3 && Jali::Entity_type_string(t).find(tn) == std::string::npos) failf("type-name", "the type of %s %d is %s, it prints as %s", KINDNAME[k], i, tn, Jali::Entity_type_string(t).c_str());
      int gid = m.GID(i, K);
      if (gid != g[i] || !gids.insert(gid).second) failf("global-id", "%s %d has global id %d, expected %d", KINDNAME[k], i, gid, g[i]);
    }
    sim::log((uint64_t)n);
  }
  for (int k = 3; k <= 5; ++k) {  // sub-cells: their lists against their cells (C07 has the rest)
    Entity_kind K = ALLKINDS[k];
    std::vector<int> cell_of; L l;
    if (spec_has(w.b.spec, K)) for (int c = 0; c < r.nc_(); ++c) {
      if (K == Entity_kind::SIDE) m.cell_get_sides(c, &l); else if (K == Entity_kind::WEDGE) m.cell_get_wedges(c, &l); else m.cell_get_corners(c, &l);
      for (int x : l) {
        if (x < 0 || x > 100000000) failf("entity-lists", "%s %d of cell %d is invalid", KINDNAME[k], x, c);
        if (x >= (int)cell_of.size()) cell_of.resize(x + 1, -1);
        if (cell_of[x] >= 0) failf("entity-lists", "%s %d belongs to cells %d and %d", KINDNAME[k], x, cell_of[x], c);
        cell_of[x] = c;
      }
    }
    for (int q = 0; q < 4; ++q) {
      std::vector<int> want, got;
      for (int i = 0; i < (int)cell_of.size(); ++i) if (cell_of[i] < 0) failf("entity-lists", "%s %d is in no cell", KINDNAME[k], i); else if (q == 3 || r.cghost[cell_of[i]] == (q == 2 ? 2 : q)) want.push_back(i);
      const Entity_type BG = Entity_type::BOUNDARY_GHOST, T = q == 3 ? Entity_type::ALL : q == 2 ? BG : PTYPES[q];
      got = q != 2 ? entities(m, K, T) : K == Entity_kind::SIDE ? m.sides<BG>() : K == Entity_kind::WEDGE ? m.wedges<BG>() : m.corners<BG>();
      if (sorted(got) != want) failf("entity-lists", "%ss of type %d are %s, expected %s", KINDNAME[k], (int)T, str(sorted(got)).c_str(), str(want).c_str());
      if ((int)m.num_entities(K, T) != (int)want.size()) failf("entity-counts", "%zu %ss of type %d, counted %d", want.size(), KINDNAME[k], (int)T, (int)m.num_entities(K, T));
    }
    sim::log((uint64_t)cell_of.size());
  }
  if (w.b.spec.mk == MK_SIMPLE3) for (int c = 0; c < r.nc_(); ++c) if (m.cell_get_type(c) != Jali::Cell_type::HEX) failf("cell-type", "cell %d of a regular grid is a %s", c, Jali::Cell_type_string(m.cell_get_type(c)).c_str());
  std::vector<int> bg; for (int c = 0; c < r.nc_(); ++c) if (r.cghost[c] == 2) bg.push_back(c);
  if (sorted(m.cells<Entity_type::BOUNDARY_GHOST>()) != bg || m.num_cells<Entity_type::BOUNDARY_GHOST>() != bg.size() || m.num_entities(Entity_kind::CELL, Entity_type::BOUNDARY_GHOST) != bg.size())
    failf("entity-lists", "boundary ghost cells are %s, expected %s", str(m.cells<Entity_type::BOUNDARY_GHOST>()).c_str(), str(bg).c_str());
}

static void run(const Plan& p) {
  World w;
  MeshSpec s = get_spec(p, "");
  w.b = build_mesh(s);
  w.dim = w.b.dim(); w.sd = w.b.space();
  const Ref& r = w.b.ref;
  if (r.nc_() == 0) return;
  Built other;
  if (p.get("two", 0)) other = build_mesh(get_spec(p, "b."));
  w.l1 = {-1, -2, -3}; w.l2 = {7}; w.d.assign(9, 5); w.map.assign(4, 3);
  int nf = (int)r.fn.size(), ne = (int)r.en.size(), nn = (int)r.X.size(), nc = r.nc_();
  auto any = [&](Rng& g) {
    switch (g.below(5)) {
      case 0: case 1: ask_cell(w, (int)g.below(nc), (int)g.below(10), (int)g.below(3)); break;
      case 2: ask_face(w, (int)g.below(nf), (int)g.below(3), (int)g.below(3)); break;
      case 3: if (ne) ask_edge(w, (int)g.below(ne)); break;
      default: ask_node(w, (int)g.below(nn), (int)g.below(3), (int)g.below(3)); break;
    }
  };
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i]; Rng g(o.a[0] + 5);
    trace("[%zu] %s", i, names[o.kind]);
    int q = (int)(o.a[1] % 3);
    switch (o.kind) {
      case O_QUERIES: for (int k = 0; k < 30; ++k) any(g); break;
      case O_CELL: { int t = (int)(o.a[2] % 10); for (int c = 0; c < nc; ++c) ask_cell(w, c, t, q); break; }
      case O_FACE: { int t = (int)(o.a[2] % 3); for (int f = 0; f < nf; ++f) ask_face(w, f, t, q); break; }
      case O_EDGE: for (int e = 0; e < ne; ++e) ask_edge(w, e); break;
      case O_NODE: { int t = (int)(o.a[2] % 3); for (int n = 0; n < nn; ++n) ask_node(w, n, t, q); break; }
      case O_LISTS: lists(w); break;
      default:
        if (other.mesh && other.ref.nc_()) { L x; int c = (int)(o.a[2] % other.ref.nc_()); other.mesh->cell_get_nodes(c, &x); same("other-mesh", "nodes of cell of the other mesh, i.e.", c, x, other.ref.cn[c]); if (spec_has(other.spec, Entity_kind::FACE)) { other.mesh->cell_get_faces(c, &x); same("other-mesh", "faces of cell of the other mesh, i.e.", c, x, other.ref.cf[c]); } if (o.a[3] % 4 == 0) { other = Built(); probe("other mesh destroyed"); } }
    }
  }
  lists(w);
  for (int c = 0; c < nc; ++c) for (int t = 0; t < 10; ++t) ask_cell(w, c, t, (c + t) % 3);
  for (int f = 0; f < nf; ++f) for (int t = 0; t < 3; ++t) ask_face(w, f, t, t == 1 ? 2 : (f + t) % 3);
  for (int e = 0; e < ne; ++e) ask_edge(w, e);
  for (int n = 0; n < nn; ++n) for (int t = 0; t < 3; ++t) ask_node(w, n, t, (n + t) % 3);
  if (nc > 1 && w.asked > 50) note_nontrivial();
  Hash h; h.add(s.mk); h.add(nc); h.add(nf); h.add(nn); for (int c = 0; c < nc; ++c) hash_list(h, r.cn[c]); h.add(s.faces); h.add(s.edges); h.add(s.sub); state_hash(h.h);
  if (s.nranks > 1 && s.gl > 0) probe("mesh with parallel ghosts");

  if (s.mk >= MK_SIMPLE3) probe("built-in framework");
}

namespace sim {
extern const Workload workload = {
    "C08", names, NOPS, generate, run,
    "one case = one simulated run: a mesh (polygonal, surface, polyhedral, one rank of a distributed mesh, or the built-in framework) on a heap with seeded contents, then a random order of topology queries with reused output containers, each compared with the independently known relation; non-trivial when the mesh has more than one cell and more than 50 queries were asked",
    "Mesh (adjacency caches, entity lists, types), Mesh_simple",
    "mesh framework for polygonal/polyhedral and distributed meshes (SimMesh, behind the abstract Mesh interface), MPI communicator",
    "heap contents and allocator are simulated (seeded garbage in fresh memory)",
    true};
}
