// C15: a distributed mesh presents exactly the serial mesh.
// Every rank is a task of one process; it builds its part with the library
// and a serial twin, and after every operation compares the answers of the
// two in global names.
#include "stateref.hpp"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "LogicalRegion.hh"
#include "LabeledSetRegion.hh"
using namespace simm;
using namespace sim;
namespace JG = JaliGeometry;
using Jali::Mesh; using Jali::State;

enum { O_CELLS = 0, O_FACES, O_EDGES, O_NODES, O_SIDES, O_WEDGES, O_CORNERS, O_SET, O_SOLVE, O_GATHER, O_MATERIAL, O_MOVE, O_TILES, O_LISTS, NOPS };
static const char* const names[] = {"compare-cells", "compare-faces", "compare-edges", "compare-nodes", "compare-sides", "compare-wedges", "compare-corners", "compare-set", "solve-step", "gather-to-nodes", "material", "move-nodes", "compare-tiles", "compare-lists"};

static void generate(Plan& p, Rng& r) {
  gen_spec(p, r, "", true, true);
  if (p.cfg["mk"] == MK_3D && !r.chance(1, 4)) for (const char* d : {"nx", "ny", "nz"}) p.cfg[d] = r.range(1, 2);
  p.cfg["nranks"] = r.chance(1, 25) ? r.range(5, 8) : r.range(2, 4);
  p.cfg["gl"] = r.chance(1, 6) ? 0 : r.range(1, 2);
  p.cfg["num"] = r.chance(3, 4) ? r.range(1, 1000) : 0;
  if (r.chance(1, 4)) gen_tiles(p, r, "");
  p.cfg["surf"] = r.chance(1, 8);  // in a plane: natural normals of curved surfaces are ambiguous
  p.cfg["rseed"] = r.below(100000);
  p.cfg["model"] = r.chance(3, 4);
  p.cfg["finegrain"] = r.chance(1, 2);
  gen_big(p, r, "", 1);
  p.cfg["heap"] = r.below(5);
  int n = (int)r.range(1, 12);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = (int)r.below(NOPS);
    for (long& a : o.a) a = r.below(100000);
    p.ops.push_back(o);
  }
}

typedef std::vector<int> Key;      // a name which is the same on every rank
typedef std::vector<Key> Keys;
static std::string ks(const Key& k) { return str(k); }

// One mesh together with the global names of its entities.
struct View {
  std::shared_ptr<SimMesh> m; const char* who;
  std::map<Key, int> id[7];        // by position in ALLKINDS
  Keys key[7];
  int pos(Entity_kind k) const { for (int i = 0; i < 7; ++i) if (ALLKINDS[i] == k) return i; return 6; }
  Key nm(Entity_kind k, int i) const { int p = pos(k); if (i < 0) return Key(1, -1); if (i >= (int)key[p].size()) failf("invalid-entity", "%s reports %s %d of %zu", who, KINDNAME[p], i, key[p].size()); return key[p][i]; }
  Keys nms(Entity_kind k, const L& l) const { Keys o; for (int i : l) o.push_back(nm(k, i)); return o; }
  void build(const MeshSpec& s) {
    const Entity_kind prim[4] = {Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::CELL};
    for (Entity_kind k : prim) { int p = pos(k); const IV& g = m->l2g(k); for (int i = 0; i < (int)g.size(); ++i) add(p, Key(1, g[i]), i); }
    if (s.sub >= 1) { int n = m->num_sides(); for (int i = 0; i < n; ++i) add(3, Key{c(m->side_get_cell(i)), f(m->side_get_face(i)), e(m->side_get_edge(i))}, i); }
    if (s.sub >= 2) { int n = m->num_wedges(); for (int i = 0; i < n; ++i) add(4, Key{c(m->wedge_get_cell(i)), f(m->wedge_get_face(i)), e(m->wedge_get_edge(i)), nd(m->wedge_get_node(i))}, i); }
    if (s.sub >= 3) { int n = m->num_corners(); for (int i = 0; i < n; ++i) add(5, Key{c(m->corner_get_cell(i)), nd(m->corner_get_node(i))}, i); }
  }
  int c(int i) const { return nm(Entity_kind::CELL, i)[0]; }
  int f(int i) const { return nm(Entity_kind::FACE, i)[0]; }
  int e(int i) const { return nm(Entity_kind::EDGE, i)[0]; }
  int nd(int i) const { return nm(Entity_kind::NODE, i)[0]; }
  void add(int p, const Key& k, int i) {
    if (!id[p].insert(std::make_pair(k, i)).second) failf("duplicate-entity", "%s: two %ss are the same entity %s", who, KINDNAME[p], ks(k).c_str());
    key[p].push_back(k);
  }
};

struct Shared {   // what the ranks exchange or report
  GMesh g; IV part; int nr = 1;
  std::vector<double> G;                                   // halo exchange
  std::map<Key, int> owners[7];                            // how many ranks own it
  std::map<Key, int> tile_owners;
  double total[8] = {0, 0, 0, 0, 0, 0, 0, 0};
  std::map<std::string, Keys> owned_in_set;
  std::map<std::string, int> set_twin;
  long asked = 0;
};

struct Rank {
  const Plan& p; MeshSpec s; Shared& sh; int r; View a, t; int dim;
  JG::GeometricModel* gm[2];
  std::vector<std::string> regs; std::vector<std::shared_ptr<JG::Region> > keep;
  std::shared_ptr<State> S, T; int nmat = 0, nvec = 0;
  std::vector<X3> X, base; double h = 1; bool moved = false;
  L l1, l2; std::vector<Jali::dir_t> d1, d2;
  Rank(const Plan& pl, const MeshSpec& sp, Shared& s_, int rk) : p(pl), s(sp), sh(s_), r(rk), dim(sp.mk == MK_2D && !sp.surf ? 2 : 3) {}

  bool ghost(Entity_kind k, const Key& nm) const {
    if (nm.empty() || nm[0] < 0) return false;
    switch (k) {
      case Entity_kind::NODE: return a.m->nghost()[a.m->n_l.at(nm[0])] != 0;
      case Entity_kind::EDGE: return a.m->eghost()[a.m->e_l.at(nm[0])] != 0;
      case Entity_kind::FACE: return a.m->fghost()[a.m->f_l.at(nm[0])] != 0;
      default: return a.m->cghost()[a.m->c_l.at(nm[0])] != 0;   // sub-cells follow their cells
    }
  }
  // the twin's answer, restricted to what is present (and of type q) here
  Keys restrict(Entity_kind k, const Keys& v, int q) const {
    Keys o; int ps = a.pos(k);
    for (auto& x : v) if (a.id[ps].count(x) && (q == 2 || (q == 1) == ghost(k, x))) o.push_back(x);
    return o;
  }
  void same(const char* cls, const char* what, const Key& of, Keys got, Keys want, bool order = false) {
    if (!order) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
    if (got != want) {
      std::string g, w; for (auto& x : got) g += ks(x); for (auto& x : want) w += ks(x);
      failf(cls, "rank %d: %s of %s are %s, the serial mesh says %s", r, what, ks(of).c_str(), g.substr(0, 300).c_str(), w.substr(0, 300).c_str());
    }
    ++sh.asked;
  }
  void num(const char* cls, const char* what, const Key& of, double got, double want, double sc) {
    if (!close(got, want, std::max(sc, std::fabs(want)))) failf(cls, "rank %d: %s of %s is %.17g, the serial mesh says %.17g", r, what, ks(of).c_str(), got, want);
    ++sh.asked;
  }
  void vec(const char* cls, const char* what, const Key& of, const Point& x, const Point& y, double sc) {
    if (x.dim() != y.dim()) failf(cls, "rank %d: %s of %s has dimension %d, the serial mesh says %d", r, what, ks(of).c_str(), (int)x.dim(), (int)y.dim());
    for (int i = 0; i < (int)x.dim(); ++i) num(cls, what, of, x[i], y[i], sc);
  }
  void pts(const char* cls, const char* what, const Key& of, const std::vector<Point>& x, const std::vector<Point>& y, bool order) {
    if (x.size() != y.size()) failf(cls, "rank %d: %s of %s are %zu points, the serial mesh says %zu", r, what, ks(of).c_str(), x.size(), y.size());
    for (size_t i = 0; i < x.size(); ++i) {
      if (order) { vec(cls, what, of, x[i], y[i], 10); continue; }
      bool hit = false;
      for (auto& q : y) { bool eq = true; for (int d = 0; d < dim; ++d) eq &= close(x[i][d], q[d], 10); hit |= eq; }
      if (!hit) failf(cls, "rank %d: %s of %s contain a point the serial mesh does not have", r, what, ks(of).c_str());
    }
  }
  bool has(Entity_kind k) const { return spec_has(s, k); }
  int twin(Entity_kind k, int i) const { int ps = a.pos(k); auto it = t.id[ps].find(a.key[ps][i]); if (it == t.id[ps].end()) failf("invented-entity", "rank %d: %s %s does not exist in the serial mesh", r, KINDNAME[ps], ks(a.key[ps][i]).c_str()); return it->second; }

  void cell(int i, Rng& g) {
    const Mesh &A = *a.m, &B = *t.m; int j = twin(Entity_kind::CELL, i); Key k = a.nm(Entity_kind::CELL, i);
    int q = (int)g.below(3);
    if (A.cell_get_type(i) != B.cell_get_type(j)) failf("cell-type", "rank %d: cell %s has another type", r, ks(k).c_str());
    A.cell_get_nodes(i, &l1); B.cell_get_nodes(j, &l2); same("cell-nodes", "nodes", k, a.nms(Entity_kind::NODE, l1), t.nms(Entity_kind::NODE, l2), true);
    if (has(Entity_kind::FACE)) {
      bool ord = g.chance(1, 2);
      A.cell_get_faces_and_dirs(i, &l1, &d1, ord); B.cell_get_faces_and_dirs(j, &l2, &d2, ord);
      Keys x = a.nms(Entity_kind::FACE, l1), y = t.nms(Entity_kind::FACE, l2);
      for (size_t n = 0; n < x.size() && n < d1.size(); ++n) x[n].push_back(d1[n]);
      for (size_t n = 0; n < y.size() && n < d2.size(); ++n) y[n].push_back(d2[n]);
      same("cell-faces", "faces and directions", k, x, y);
      if (A.cell_get_num_faces(i) != B.cell_get_num_faces(j)) failf("cell-faces", "rank %d: cell %s has another number of faces", r, ks(k).c_str());
    }
    if (has(Entity_kind::EDGE)) {
      A.cell_get_edges(i, &l1); B.cell_get_edges(j, &l2); same("cell-edges", "edges", k, a.nms(Entity_kind::EDGE, l1), t.nms(Entity_kind::EDGE, l2));
      if (s.mk == MK_2D) {
        A.cell_2D_get_edges_and_dirs(i, &l1, &d1); B.cell_2D_get_edges_and_dirs(j, &l2, &d2);
        Keys x = a.nms(Entity_kind::EDGE, l1), y = t.nms(Entity_kind::EDGE, l2);
        for (size_t n = 0; n < x.size() && n < d1.size(); ++n) x[n].push_back(d1[n]);
        for (size_t n = 0; n < y.size() && n < d2.size(); ++n) y[n].push_back(d2[n]);
        same("cell-edges", "edges and directions", k, x, y);
      }
    }
    A.cell_get_face_adj_cells(i, PTYPES[q], &l1); B.cell_get_face_adj_cells(j, Entity_type::ALL, &l2);
    same("face-neighbours", "face neighbours", k, a.nms(Entity_kind::CELL, l1), restrict(Entity_kind::CELL, t.nms(Entity_kind::CELL, l2), q));
    A.cell_get_node_adj_cells(i, PTYPES[q], &l1); B.cell_get_node_adj_cells(j, Entity_type::ALL, &l2);
    same("node-neighbours", "node neighbours", k, a.nms(Entity_kind::CELL, l1), restrict(Entity_kind::CELL, t.nms(Entity_kind::CELL, l2), q));
    num("cell-volume", "volume", k, A.cell_volume(i), B.cell_volume(j), 1);
    vec("cell-centroid", "centroid", k, A.cell_centroid(i), B.cell_centroid(j), 10);
    if (s.sub >= 1) { A.cell_get_sides(i, &l1); B.cell_get_sides(j, &l2); same("cell-sides", "sides", k, a.nms(Entity_kind::SIDE, l1), t.nms(Entity_kind::SIDE, l2)); }
    if (s.sub >= 2) { A.cell_get_wedges(i, &l1); B.cell_get_wedges(j, &l2); same("cell-wedges", "wedges", k, a.nms(Entity_kind::WEDGE, l1), t.nms(Entity_kind::WEDGE, l2)); }
    if (s.sub >= 3) {
      A.cell_get_corners(i, &l1); B.cell_get_corners(j, &l2); same("cell-corners", "corners", k, a.nms(Entity_kind::CORNER, l1), t.nms(Entity_kind::CORNER, l2));
      A.cell_get_nodes(i, &l1); for (int n : l1) if (a.nm(Entity_kind::CORNER, A.cell_get_corner_at_node(i, n)) != Key{k[0], a.nd(n)}) failf("cell-corners", "rank %d: corner of cell %s at node %d is another one", r, ks(k).c_str(), a.nd(n));
    }
    std::vector<Point> x, y; A.cell_get_coordinates(i, &x); B.cell_get_coordinates(j, &y); pts("cell-coordinates", "coordinates", k, x, y, true);
  }
  void face(int i, Rng& g) {
    if (!has(Entity_kind::FACE)) return;
    const Mesh &A = *a.m, &B = *t.m; int j = twin(Entity_kind::FACE, i); Key k = a.nm(Entity_kind::FACE, i); int q = (int)g.below(3);
    A.face_get_nodes(i, &l1); B.face_get_nodes(j, &l2); same("face-nodes", "nodes", k, a.nms(Entity_kind::NODE, l1), t.nms(Entity_kind::NODE, l2), true);
    A.face_get_cells(i, PTYPES[q], &l1); B.face_get_cells(j, Entity_type::ALL, &l2);
    same("face-cells", "cells", k, a.nms(Entity_kind::CELL, l1), restrict(Entity_kind::CELL, t.nms(Entity_kind::CELL, l2), q));
    if (has(Entity_kind::EDGE)) {
      A.face_get_edges_and_dirs(i, &l1, &d1); B.face_get_edges_and_dirs(j, &l2, &d2);
      Keys x = a.nms(Entity_kind::EDGE, l1), y = t.nms(Entity_kind::EDGE, l2);
      for (size_t n = 0; n < x.size() && n < d1.size(); ++n) x[n].push_back(d1[n]);
      for (size_t n = 0; n < y.size() && n < d2.size(); ++n) y[n].push_back(d2[n]);
      same("face-edges", "edges and directions", k, x, y);
    }
    num("face-area", "area", k, A.face_area(i), B.face_area(j), 1);
    vec("face-centroid", "centroid", k, A.face_centroid(i), B.face_centroid(j), 10);
    vec("face-normal", "normal", k, A.face_normal(i), B.face_normal(j), 1);
    A.face_get_cells(i, Entity_type::ALL, &l1);
    for (int c : l1) { int o1 = 9, o2 = 8, c2 = twin(Entity_kind::CELL, c); Point x = A.face_normal(i, false, c, &o1), y = B.face_normal(j, false, c2, &o2); vec("face-normal", "normal as seen from a cell", k, x, y, 1); if (o1 != o2) failf("face-normal", "rank %d: face %s has orientation %d as seen from cell %d, the serial mesh says %d", r, ks(k).c_str(), o1, a.c(c), o2); }
    if (s.sub >= 1) { /* facets of a face are its sides' facets */ }
    std::vector<Point> x, y; A.face_get_coordinates(i, &x); B.face_get_coordinates(j, &y); pts("face-coordinates", "coordinates", k, x, y, true);
  }
  void edge(int i) {
    if (!has(Entity_kind::EDGE)) return;
    const Mesh &A = *a.m, &B = *t.m; int j = twin(Entity_kind::EDGE, i); Key k = a.nm(Entity_kind::EDGE, i);
    int n0, n1, m0, m1; A.edge_get_nodes(i, &n0, &n1); B.edge_get_nodes(j, &m0, &m1);
    same("edge-nodes", "nodes", k, Keys{a.nm(Entity_kind::NODE, n0), a.nm(Entity_kind::NODE, n1)}, Keys{t.nm(Entity_kind::NODE, m0), t.nm(Entity_kind::NODE, m1)}, true);
    num("edge-length", "length", k, A.edge_length(i), B.edge_length(j), 1);
    vec("edge-vector", "vector", k, A.edge_vector(i), B.edge_vector(j), 1);
    vec("edge-vector", "vector from a node", k, A.edge_vector(i, false, n1), B.edge_vector(j, false, m1), 1);
    vec("edge-centroid", "centre", k, A.edge_centroid(i), B.edge_centroid(j), 10);
  }
  void node(int i, Rng& g) {
    const Mesh &A = *a.m, &B = *t.m; int j = twin(Entity_kind::NODE, i); Key k = a.nm(Entity_kind::NODE, i); int q = (int)g.below(3);
    A.node_get_cells(i, PTYPES[q], &l1); B.node_get_cells(j, Entity_type::ALL, &l2);
    same("node-cells", "cells", k, a.nms(Entity_kind::CELL, l1), restrict(Entity_kind::CELL, t.nms(Entity_kind::CELL, l2), q));
    if (has(Entity_kind::FACE)) {
      A.node_get_faces(i, PTYPES[q], &l1); B.node_get_faces(j, Entity_type::ALL, &l2);
      same("node-faces", "faces", k, a.nms(Entity_kind::FACE, l1), restrict(Entity_kind::FACE, t.nms(Entity_kind::FACE, l2), q));
    }
    if (s.sub >= 3) {
      A.node_get_wedges(i, PTYPES[q], &l1); B.node_get_wedges(j, Entity_type::ALL, &l2);
      same("node-wedges", "wedges", k, a.nms(Entity_kind::WEDGE, l1), restrict(Entity_kind::WEDGE, t.nms(Entity_kind::WEDGE, l2), q));
      A.node_get_corners(i, PTYPES[q], &l1); B.node_get_corners(j, Entity_type::ALL, &l2);
      same("node-corners", "corners", k, a.nms(Entity_kind::CORNER, l1), restrict(Entity_kind::CORNER, t.nms(Entity_kind::CORNER, l2), q));
    }
    vec("node-coordinates", "coordinates", k, m_coord(A, i, dim), m_coord(B, j, dim), 10);
  }
  void side(int i) {
    if (s.sub < 1) return;
    const Mesh &A = *a.m, &B = *t.m; int j = twin(Entity_kind::SIDE, i); Key k = a.nm(Entity_kind::SIDE, i);
    same("side-nodes", "nodes", k, Keys{a.nm(Entity_kind::NODE, A.side_get_node(i, 0)), a.nm(Entity_kind::NODE, A.side_get_node(i, 1))}, Keys{t.nm(Entity_kind::NODE, B.side_get_node(j, 0)), t.nm(Entity_kind::NODE, B.side_get_node(j, 1))}, true);
    if (A.side_get_edge_use(i) != B.side_get_edge_use(j)) failf("side-edge-use", "rank %d: side %s uses its edge in another direction", r, ks(k).c_str());
    Key o = a.nm(Entity_kind::SIDE, A.side_get_opposite_side(i)), w = t.nm(Entity_kind::SIDE, B.side_get_opposite_side(j));
    if (w[0] >= 0 && !a.id[3].count(w)) w = Key(1, -1);
    same("side-opposite", "opposite side", k, Keys{o}, Keys{w});
    num("side-volume", "volume", k, A.side_volume(i), B.side_volume(j), 1);
    vec("side-normal", "outward normal", k, A.side_facet_normal(i), B.side_facet_normal(j), 1);
    std::vector<Point> x, y; A.side_get_coordinates(i, &x); B.side_get_coordinates(j, &y); pts("side-coordinates", "coordinates", k, x, y, true);
  }
  void wedge(int i) {
    if (s.sub < 2) return;
    const Mesh &A = *a.m, &B = *t.m; int j = twin(Entity_kind::WEDGE, i); Key k = a.nm(Entity_kind::WEDGE, i);
    same("wedge-side", "side", k, Keys{a.nm(Entity_kind::SIDE, A.wedge_get_side(i))}, Keys{t.nm(Entity_kind::SIDE, B.wedge_get_side(j))});
    same("wedge-adjacent", "adjacent wedge", k, Keys{a.nm(Entity_kind::WEDGE, A.wedge_get_adjacent_wedge(i))}, Keys{t.nm(Entity_kind::WEDGE, B.wedge_get_adjacent_wedge(j))});
    Key o = a.nm(Entity_kind::WEDGE, A.wedge_get_opposite_wedge(i)), w = t.nm(Entity_kind::WEDGE, B.wedge_get_opposite_wedge(j));
    if (w[0] >= 0 && !a.id[4].count(w)) w = Key(1, -1);
    same("wedge-opposite", "opposite wedge", k, Keys{o}, Keys{w});
    if (s.sub >= 3) same("wedge-corner", "corner", k, Keys{a.nm(Entity_kind::CORNER, A.wedge_get_corner(i))}, Keys{t.nm(Entity_kind::CORNER, B.wedge_get_corner(j))});
    num("wedge-volume", "volume", k, A.wedge_volume(i), B.wedge_volume(j), 1);
    for (int f = 0; f < 2; ++f) vec("wedge-normal", "facet normal", k, A.wedge_facet_normal(i, f), B.wedge_facet_normal(j, f), 1);
    std::vector<Point> x, y; A.wedge_get_coordinates(i, &x); B.wedge_get_coordinates(j, &y); pts("wedge-coordinates", "coordinates", k, x, y, true);
  }
  void corner(int i) {
    if (s.sub < 3) return;
    const Mesh &A = *a.m, &B = *t.m; int j = twin(Entity_kind::CORNER, i); Key k = a.nm(Entity_kind::CORNER, i);
    A.corner_get_wedges(i, &l1); B.corner_get_wedges(j, &l2); same("corner-wedges", "wedges", k, a.nms(Entity_kind::WEDGE, l1), t.nms(Entity_kind::WEDGE, l2));
    num("corner-volume", "volume", k, A.corner_volume(i), B.corner_volume(j), 1);
    std::vector<Point> x(3, Point(dim)), y(3, Point(dim)); A.corner_get_coordinates(i, &x); B.corner_get_coordinates(j, &y); pts("corner-coordinates", "coordinates", k, x, y, false);
  }
  void sweep(int kind, Rng& g, bool all) {
    Entity_kind K = kind == O_CELLS ? Entity_kind::CELL : kind == O_FACES ? Entity_kind::FACE : kind == O_EDGES ? Entity_kind::EDGE : kind == O_NODES ? Entity_kind::NODE : kind == O_SIDES ? Entity_kind::SIDE : kind == O_WEDGES ? Entity_kind::WEDGE : Entity_kind::CORNER;
    int n = has(K) ? (int)a.key[a.pos(K)].size() : 0, step = all ? 1 : (int)g.range(1, 4);
    for (int i = all ? 0 : (int)g.below(step); i < n; i += step) {
      switch (kind) { case O_CELLS: cell(i, g); break; case O_FACES: face(i, g); break; case O_EDGES: edge(i); break; case O_NODES: node(i, g); break; case O_SIDES: side(i); break; case O_WEDGES: wedge(i); break; default: corner(i); }
      yield();
    }
  }
  void lists() {
    for (int k = 0; k < 7; ++k) {
      Entity_kind K = ALLKINDS[k]; int n = has(K) ? (int)a.key[k].size() : 0;
      for (int q = 0; q < 3; ++q) {
        L got = entities(*a.m, K, PTYPES[q]); Keys want;
        for (int i = 0; i < n; ++i) if (q == 2 || (q == 1) == ghost(K, a.key[k][i])) want.push_back(a.key[k][i]);
        same("entity-lists", KINDNAME[k], Key{q}, a.nms(K, got), want);
        if ((int)a.m->num_entities(K, PTYPES[q]) != (int)want.size()) failf("entity-counts", "rank %d: %d %s %ss counted, expected %zu", r, (int)a.m->num_entities(K, PTYPES[q]), PTNAME[q], KINDNAME[k], want.size());
      }
    }
  }
  void make_regions() {
    // the same regions on every rank and for every twin
    Rng g(p.get("rseed", 0) + 3);
    std::vector<std::string> nm; std::vector<int> cat;
    for (int w = 0; w < 2; ++w) gm[w] = new JG::GeometricModel(dim);
    auto pt = [&](const X3& x) { Point q(dim); for (int d = 0; d < dim; ++d) q[d] = x[d]; return q; };
    X3 lo = sh.g.X[0], hi = lo; for (auto& x : sh.g.X) for (int d = 0; d < 3; ++d) { lo[d] = std::min(lo[d], x[d]); hi[d] = std::max(hi[d], x[d]); }
    int nreg = (int)g.range(1, 6);
    for (int i = 0; i < nreg; ++i) {
      std::string n = "region" + std::to_string(i);
      int ty = (int)g.below(i ? 5 : 4);
      X3 u, v; for (int d = 0; d < 3; ++d) { double e = 0.0371 + 0.1 * g.unit(); u[d] = lo[d] - e + (hi[d] - lo[d]) * 0.6 * g.unit(); v[d] = u[d] + (hi[d] - lo[d]) * (0.3 + 0.7 * g.unit()) + e; }
      X3 q = sh.g.X[g.below(sh.g.nn())]; int ax = (int)g.below(dim); std::string other, other2; int cat0 = -1;
      if (i) {  // combined sets are tied to one kind of entity
        int c1 = (int)g.below((long)nm.size()); other = nm[c1]; cat0 = cat[c1];
        int c2 = (int)g.below((long)nm.size()); other2 = cat[c2] == cat0 ? nm[c2] : other;
      }
      int op = (int)g.below(4), lk = (int)g.below(has(Entity_kind::FACE) ? 3 : 2); bool inner = g.chance(1, 2); double al = 0.3 + 0.3 * g.unit();
      static const JG::Bool_type ops[] = {JG::Bool_type::UNION, JG::Bool_type::INTERSECT, JG::Bool_type::SUBTRACT, JG::Bool_type::COMPLEMENT};
      for (int w = 0; w < 2; ++w) {
        std::shared_ptr<JG::Region> rg;
        if (ty == 0) rg = std::make_shared<JG::BoxRegion>(n, i + 1, pt(u), pt(v));
        else if (ty == 1) { X3 nn = {{0, 0, 0}}; nn[ax] = 1; rg = std::make_shared<JG::PlaneRegion>(n, i + 1, pt(q), pt(nn)); }
        else if (ty == 2) { X3 z = q; if (inner) for (int d = 0; d < 3; ++d) z[d] = lo[d] + (hi[d] - lo[d]) * (al + 0.013 * d); rg = std::make_shared<JG::PointRegion>(n, i + 1, pt(z)); }
        else if (ty == 3) rg = std::make_shared<JG::LabeledSetRegion>(n, i + 1, lk == 0 ? "CELL" : lk == 1 ? "NODE" : "FACE", "file", "Exodus II", "L" + std::to_string(i % 3));
        else rg = std::make_shared<JG::LogicalRegion>(n, i + 1, ops[op], op == 3 ? std::vector<std::string>{other} : std::vector<std::string>{other, other2});
        keep.push_back(rg); gm[w]->Add_Region(rg.get());
      }
      nm.push_back(n); cat.push_back(ty == 3 ? lk : ty == 4 ? cat0 : -1);
    }
    regs = nm;
  }
  void set(const Op& o, size_t opi) {
    if (regs.empty()) return;
    const std::string& n = regs[o.a[0] % regs.size()];
    Entity_kind K = o.a[1] % 3 == 0 ? Entity_kind::CELL : o.a[1] % 3 == 1 ? Entity_kind::NODE : Entity_kind::FACE;
    if (K == Entity_kind::FACE && !has(K)) K = Entity_kind::CELL;
    Keys got[3], want[3]; bool e1 = false, e2 = false;
    for (int q = 0; q < 3; ++q) {
      L x, y;
      try { a.m->get_set_entities(n, K, PTYPES[q], &x); } catch (const Errors::Message&) { e1 = true; }
      try { t.m->get_set_entities(n, K, q == 1 ? Entity_type::ALL : Entity_type::PARALLEL_OWNED, &y); } catch (const Errors::Message&) { e2 = true; }
      if (e1 != e2) failf("set-error", "rank %d: region \"%s\", %s: %s on the rank, %s on the serial mesh", r, n.c_str(), KINDNAME[a.pos(K)], e1 ? "an error" : "a set", e2 ? "an error" : "a set");
      if (e1) return;
      got[q] = a.nms(K, x); want[q] = restrict(K, t.nms(K, y), q);
      same("set-entities", (std::string(PTNAME[q]) + " members of set \"" + n + "\", " + KINDNAME[a.pos(K)]).c_str(), Key{(int)opi}, got[q], want[q]);
      if (a.m->get_set_size(n, K, PTYPES[q]) != want[q].size()) failf("set-size", "rank %d: set \"%s\" has size %u, expected %zu", r, n.c_str(), a.m->get_set_size(n, K, PTYPES[q]), want[q].size());
    }
    L y; t.m->get_set_entities(n, K, Entity_type::ALL, &y);
    { AllocPause ap; std::string key = n + "/" + KINDNAME[a.pos(K)] + "/" + std::to_string(opi); Keys& k = sh.owned_in_set[key]; k.insert(k.end(), got[0].begin(), got[0].end()); sh.set_twin[key] = (int)y.size(); }
    if (!got[1].empty() && !got[0].empty()) probe("set with owned and ghost entities");
  }
  typedef Jali::UniStateVector<double, Mesh> UV;
  void need_state() { if (!S) { S = State::create(std::shared_ptr<Mesh>(a.m)); T = State::create(std::shared_ptr<Mesh>(t.m)); } }
  void halo_wait(int id) { barrier(id, sh.nr); }
  static double ini(int gid) { return 1.0 + 0.37 * (gid % 11) - 0.05 * (gid % 7); }
  UV& cellvec(std::shared_ptr<State>& st, const View& v) {
    UV* u = nullptr; SVP sp;
    for (size_t i = 0; i < st->size(); ++i) if ((*st)[i]->name() == "u") u = uni<double, Mesh>((*st)[i]);
    if (!u) { u = &st->add<double, Mesh, Jali::UniStateVector>("u", std::shared_ptr<Mesh>(v.m), Entity_kind::CELL, Entity_type::ALL, 0.0); for (int i = 0; i < (int)v.key[6].size(); ++i) (*u)[i] = ini(v.c(i)); }
    if (u->size() != v.key[6].size()) failf("state-size", "rank %d: a vector on %zu cells has %zu values", r, v.key[6].size(), u->size());
    return *u;
  }
  void solve(const Op& o) {  // one explicit step of diffusion between face neighbours
    need_state();
    auto step = [&](View& v, UV& u, bool all) {
      std::vector<std::pair<int, double> > nw; L nb;
      for (int c : all ? v.m->cells<Entity_type::ALL>() : v.m->cells<Entity_type::PARALLEL_OWNED>()) {
        v.m->cell_get_face_adj_cells(c, Entity_type::ALL, &nb);
        double s1 = 0; for (int x : nb) s1 += (u[x] - u[c]) * 0.05; nw.push_back(std::make_pair(c, u[c] + s1)); yield();
      }
      for (auto& x : nw) u[x.first] = x.second;
    };
    int ns = 1 + (int)(o.a[0] % 3);
    for (int k = 0; k < ns; ++k) {
      UV& u = cellvec(S, a); step(a, u, false);
      for (int c : a.m->cells<Entity_type::PARALLEL_OWNED>()) sh.G[a.c(c)] = u[c];
      halo_wait(200);
      for (int c : a.m->cells<Entity_type::PARALLEL_GHOST>()) u[c] = sh.G[a.c(c)];
      halo_wait(201);
      step(t, cellvec(T, t), true);
    }
    compare_u("solve-step");
  }
  void compare_u(const char* what) {
    UV& u = cellvec(S, a); UV& v = cellvec(T, t);
    for (int i = 0; i < (int)a.key[6].size(); ++i) num("field", what, a.key[6][i], u[i], v[twin(Entity_kind::CELL, i)], 1);
  }
  void gather(const Op& o) {  // cells to nodes and back to the owned cells
    need_state();
    UV& u = cellvec(S, a); UV& v = cellvec(T, t); std::string n = "nodal" + std::to_string(nvec++);
    auto go = [&](View& w, std::shared_ptr<State>& st, UV& f, bool twin_) -> UV& {
      UV& x = st->add<double, Mesh, Jali::UniStateVector>(n, std::shared_ptr<Mesh>(w.m), Entity_kind::NODE, Entity_type::ALL, -7.0);
      if (x.size() != w.key[0].size()) failf("state-size", "rank %d: a vector on %zu nodes has %zu values", r, w.key[0].size(), x.size());
      L c; for (int i : twin_ ? w.m->nodes<Entity_type::ALL>() : w.m->nodes<Entity_type::PARALLEL_OWNED>()) { w.m->node_get_cells(i, Entity_type::ALL, &c); double s1 = 0, vv = 0; for (int k : c) { s1 += f[k] * w.m->cell_volume(k); vv += w.m->cell_volume(k); } x[i] = s1 / vv; }
      return x;
    };
    UV& x = go(a, S, u, false); UV& y = go(t, T, v, true);
    for (int i : a.m->nodes<Entity_type::PARALLEL_OWNED>()) num("field", "nodal average", a.key[0][i], x[i], y[twin(Entity_kind::NODE, i)], 1);
    (void)o;
  }
  void material(const Op& o) {
    need_state();
    std::string n = "mat" + std::to_string(nmat++); Rng g(o.a[0] + 1); std::set<int> in; int den = (int)g.range(2, 4);
    for (int c = 0; c < sh.g.nc(); ++c) if (g.below(den) == 0) in.insert(c);
    auto mk = [&](View& v, std::shared_ptr<State>& st, uint64_t seed) { std::vector<int> l; for (int i = 0; i < (int)v.key[6].size(); ++i) if (in.count(v.c(i))) l.push_back(i); Rng q(seed); q.shuffle(l); st->add_material(n, l); };
    mk(a, S, o.a[1] + r); mk(t, T, o.a[1] + 77);
    int m = nmat - 1;
    same("material-cells", "cells of a material", Key{m}, a.nms(Entity_kind::CELL, S->material_cells(m)), restrict(Entity_kind::CELL, t.nms(Entity_kind::CELL, T->material_cells(m)), 2));
    for (int i = 0; i < (int)a.key[6].size(); ++i) {
      std::vector<int> x = S->cell_materials(i), y = T->cell_materials(twin(Entity_kind::CELL, i));
      if (sorted(x) != sorted(y)) failf("cell-materials", "rank %d: cell %s has materials %s, the serial mesh says %s", r, ks(a.key[6][i]).c_str(), str(x).c_str(), str(y).c_str());
    }
    L own; std::shared_ptr<Jali::MeshSet> ms = S->material_set(m);
    if (ms) { Keys w; for (int c : in) if (a.m->c_l.count(c) && !a.m->cghost()[a.m->c_l.at(c)]) w.push_back(Key(1, c)); same("material-set", "owned cells of the set of a material", Key{m}, a.nms(Entity_kind::CELL, ms->entities<Entity_type::PARALLEL_OWNED>()), w); }
    { AllocPause ap; std::string key = n; Keys& k = sh.owned_in_set[key]; if (ms) for (int c : ms->entities<Entity_type::PARALLEL_OWNED>()) k.push_back(a.nm(Entity_kind::CELL, c)); sh.set_twin[key] = (int)in.size(); }
  }
  void move(const Op& o) {
    Rng g(o.a[0] + 9);
    double A[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = (i == j ? 1.0 : 0.0) + 0.1 * (g.unit() - 0.5);
    std::vector<X3> Y(X.size());
    for (size_t n = 0; n < X.size(); ++n) { X3 q = {{0, 0, 0}}; for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) q[i] += A[i][j] * X[n][j]; Y[n] = q; }
    X = Y;
    auto go = [&](View& v) {
      for (int i = 0; i < (int)v.key[0].size(); ++i) { double c[3] = {X[v.nd(i)][0], X[v.nd(i)][1], X[v.nd(i)][2]}; v.m->node_set_coordinates(i, c); }
      v.m->update_geometric_quantities();
    };
    if (o.a[1] % 2) { go(a); go(t); } else { go(t); go(a); }
    moved = true;
  }
  void tiles() {
    if (!s.ntiles) return;
    std::map<Key, int> own;
    for (auto& tl : a.m->tiles()) for (int c : entities(*tl, Entity_kind::CELL, Entity_type::PARALLEL_OWNED)) { Key k = a.nm(Entity_kind::CELL, c); if (ghost(Entity_kind::CELL, k)) failf("tile-owner", "rank %d: a tile owns cell %s, which another rank owns", r, ks(k).c_str()); ++own[k]; }
    for (auto& kv : own) if (kv.second != 1) failf("tile-owner", "rank %d: cell %s is owned by %d tiles", r, ks(kv.first).c_str(), kv.second);
    AllocPause ap; sh.tile_owners.insert(own.begin(), own.end());
  }
  void body() {
    Quiet* qq = nullptr; (void)qq;
    MPI_Comm comm = (MPI_Comm)mpi_world();
    gm[0] = gm[1] = nullptr;
    { AllocPause ap; if (p.get("model", 0)) make_regions(); X = base = sh.g.X; }
    SimOpts oa = simopts(s), ot = oa; ot.ntiles = 0; ot.ghost_layers = 1;
    bool first = (p.get("rseed", 0) >> r & 1) != 0;
    IV none;
    auto mk_twin = [&]() { t.m = std::make_shared<SimMesh>(sh.g, none, 0, ot, comm, gm[1], 0); };
    if (first) mk_twin();
    a.m = std::make_shared<SimMesh>(sh.g, sh.part, r, oa, comm, gm[0], s.numbering ? s.numbering + r : 0);
    if (!first) mk_twin();
    a.who = "a rank"; t.who = "the serial mesh"; a.build(s); t.build(s);
    for (size_t i = 0; i < p.ops.size(); ++i) {
      const Op& o = p.ops[i]; Rng g(o.a[5] * 31 + r * 7 + i);
      trace("rank %d: [%zu] %s", r, i, names[o.kind]);
      switch (o.kind) {
        case O_SET: set(o, i); break;
        case O_SOLVE: if (s.gl > 0) solve(o); break;
        case O_GATHER: if (s.gl > 0) gather(o); break;
        case O_MATERIAL: material(o); break;
        case O_MOVE: move(o); break;
        case O_TILES: tiles(); break;
        case O_LISTS: lists(); break;
        default: sweep(o.kind, g, false);
      }
      yield();
    }
    Rng g(r + 1);
    lists(); tiles();
    for (int k = O_CELLS; k <= O_CORNERS; ++k) sweep(k, g, true);
    // report what this rank owns
    AllocPause ap;
    for (int k = 0; k < 7; ++k) if (has(ALLKINDS[k])) for (int i : entities(*a.m, ALLKINDS[k], Entity_type::PARALLEL_OWNED)) {
      ++sh.owners[k][a.nm(ALLKINDS[k], i)];
      double q = ALLKINDS[k] == Entity_kind::CELL ? a.m->cell_volume(i) : ALLKINDS[k] == Entity_kind::FACE ? a.m->face_area(i) : ALLKINDS[k] == Entity_kind::EDGE ? a.m->edge_length(i) : ALLKINDS[k] == Entity_kind::SIDE ? a.m->side_volume(i) : ALLKINDS[k] == Entity_kind::WEDGE ? a.m->wedge_volume(i) : ALLKINDS[k] == Entity_kind::CORNER ? a.m->corner_volume(i) : 1.0;
      sh.total[k] += q;
    }
    if (S && s.gl > 0) { UV& u = cellvec(S, a); for (int c : a.m->cells<Entity_type::PARALLEL_OWNED>()) sh.total[7] += u[c]; }
  }
};

static void run(const Plan& p) {
  Quiet q;
  MeshSpec s = get_spec(p, "");
  Shared sh;
  s.mk &= 1; s.nranks = (int)std::min(8l, std::max(1l, p.get("nranks", 2)));
  sh.g = gmesh_of(s); sh.nr = s.nranks;
  { Rng r(s.pseed * 3 + 11); sh.part = make_partition(sh.g, s.nranks, r); }
  { Rng r(p.get("rseed", 0) + 17); for (int l = 0; l < 3; ++l) for (int k = 0; k < 3; ++k) { Entity_kind K = k == 0 ? Entity_kind::CELL : k == 1 ? Entity_kind::NODE : Entity_kind::FACE; auto& m = sh.g.labels["L" + std::to_string(l)][(int)K]; for (int i = 0; i < sh.g.count(K); ++i) if (r.chance(1, 3)) m.insert(i); } }
  sh.G.assign(sh.g.nc(), 0.0);
  std::vector<std::unique_ptr<Rank> > rk;
  std::vector<std::function<void()> > bodies;
  for (int r = 0; r < sh.nr; ++r) rk.emplace_back(new Rank(p, s, sh, r));
  for (int r = 0; r < sh.nr; ++r) bodies.push_back([&rk, r]() { rk[r]->body(); });
  SchedCfg sc; sc.mean_gap = p.get("finegrain", 0) ? 40 : 3; 
  yield_on_alloc = p.get("finegrain", 0) != 0;
  run_tasks(p, sc, bodies);
  yield_on_alloc = false;
  // every entity has exactly one owner
  const View& t = rk[0]->t;
  for (int k = 0; k < 7; ++k) if (spec_has(s, ALLKINDS[k])) {
    for (auto& x : t.key[k]) { int n = sh.owners[k].count(x) ? sh.owners[k][x] : 0; if (n != 1) failf("one-owner", "%s %s is owned by %d ranks", KINDNAME[k], ks(x).c_str(), n); }
    for (auto& x : sh.owners[k]) if (!t.id[k].count(x.first)) failf("one-owner", "%s %s does not exist in the serial mesh", KINDNAME[k], ks(x.first).c_str());
    double want = 0; const Mesh& m = *t.m;
    for (int i = 0; i < (int)t.key[k].size(); ++i) want += ALLKINDS[k] == Entity_kind::CELL ? m.cell_volume(i) : ALLKINDS[k] == Entity_kind::FACE ? m.face_area(i) : ALLKINDS[k] == Entity_kind::EDGE ? m.edge_length(i) : ALLKINDS[k] == Entity_kind::SIDE ? m.side_volume(i) : ALLKINDS[k] == Entity_kind::WEDGE ? m.wedge_volume(i) : ALLKINDS[k] == Entity_kind::CORNER ? m.corner_volume(i) : 1.0;
    if (!close(sh.total[k], want, std::max(1.0, std::fabs(want)))) failf("conserved-total", "the ranks' owned %ss add up to %.15g, the serial mesh to %.15g", KINDNAME[k], sh.total[k], want);
  }
  if (rk[0]->S && s.gl > 0) { double want = 0; Rank::UV& v = rk[0]->cellvec(rk[0]->T, rk[0]->t); for (int i = 0; i < (int)t.key[6].size(); ++i) want += v[i]; if (!close(sh.total[7], want, std::max(1.0, std::fabs(want)))) failf("conserved-total", "the field adds up to %.15g over owned cells, to %.15g serially", sh.total[7], want); }
  for (auto& kv : sh.owned_in_set) {
    Keys k = kv.second; std::sort(k.begin(), k.end());
    for (size_t i = 1; i < k.size(); ++i) if (k[i] == k[i - 1]) failf("set-owner", "%s of set \"%s\" is owned by two ranks", ks(k[i]).c_str(), kv.first.c_str());
    if ((int)k.size() != sh.set_twin[kv.first]) failf("set-owner", "the ranks own %zu members of set \"%s\", the serial mesh has %d", k.size(), kv.first.c_str(), sh.set_twin[kv.first]);
  }
  if (s.ntiles) { if ((int)sh.tile_owners.size() != sh.g.nc()) failf("tile-owner", "the tiles of all ranks own %zu of %d cells", sh.tile_owners.size(), sh.g.nc()); }
  std::set<int> used(sh.part.begin(), sh.part.end());
  if (used.size() > 1 && sh.asked > 100) note_nontrivial();
  if (s.gl == 0) probe("no ghost layer");
  for (auto& x : rk) { if (x->moved) probe("nodes moved"); if (x->a.m->c_g.empty()) probe("a rank without cells"); }
  Hash h; h.add(s.mk); h.add(s.sub); h.add(s.gl); for (int x : sh.part) h.add(x); for (auto& c : sh.g.cell_nodes) hash_list(h, c); state_hash(h.h);
  for (int k = 0; k < 8; ++k) { char b[40]; snprintf(b, 40, "%.9g", sh.total[k]); sim::log(std::string(b)); }
  std::vector<JG::GeometricModel*> del; for (auto& x : rk) { del.push_back(x->gm[0]); del.push_back(x->gm[1]); }
  for (auto& x : rk) { x->S.reset(); x->T.reset(); x->a.m.reset(); x->t.m.reset(); }
  rk.clear();
  for (auto* d : del) delete d;
}

namespace sim {
extern const Workload workload = {
    "C15", names, NOPS, generate, run,
    "one case = one simulated run: a polygonal or polyhedral mesh partitioned over 2..4 simulated ranks (tasks of one process, preempted at queries and, in half of the runs, at every allocation), each rank with its own numbering, ghost layers, regions and state; every answer is compared with a serial twin in global names, explicit solver steps with halo exchange are compared with the serial field, ownership and totals over all ranks afterwards; non-trivial when at least two ranks own cells and more than 100 answers were compared",
    "Mesh (adjacency, geometry, sub-cells, sets, parallel types), MeshTile, MeshSet, State, UniStateVector, geometric regions",
    "mesh framework providing the distribution (SimMesh, behind the abstract Mesh interface), halo exchange and MPI communicator",
    "boundary ghosts are outside (the library does not implement them completely)|the framework supplies owned and ghost entities consistently|nodes are moved consistently on all ranks|face and cell node orders are the same on all ranks",
    true};
}
