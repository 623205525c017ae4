// C07: sides, wedges and corners exactly tile their cells and close up.
#include "geomref.hpp"
#include <new>
using namespace simm;
using namespace sim;

enum { O_MOVE = 0, O_AFFINE, O_UPDATE, O_TOPO, O_CELL, O_CORNER, NOPS };
static const char* const names[] = {"move-node", "move-all", "update-geometry", "check-topology", "check-cell", "check-corner"};

static void generate(Plan& p, Rng& r) {
  gen_spec(p, r, "", r.chance(1, 3), true);
  if (p.cfg["mk"] == MK_SIMPLE3) p.cfg["mk"] = r.chance(1, 2) ? MK_3D : MK_SIMPLE1;
  p.cfg["sub"] = r.chance(2, 3) ? 3 : r.range(1, 3);
  if (p.cfg["mk"] == MK_3D && !r.chance(1, 6)) for (const char* d : {"nx", "ny", "nz"}) p.cfg[d] = r.range(1, 2);
  if (r.chance(1, 4)) gen_tiles(p, r, "");
  p.cfg["sph"] = r.chance(1, 3); p.cfg["bg"] = r.chance(1, 5);
  bool big = gen_big(p, r, "", 1);
  p.cfg["heap"] = r.below(5);
  int n = big ? (int)r.range(0, 10) : gen_len(r, 0, 12);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = (int)r.below(NOPS);
    for (long& a : o.a) a = r.below(100000);
    p.ops.push_back(o);
    if (o.kind == O_UPDATE && r.chance(1, 3)) { Fault f; f.kind = F_ALLOC; f.where = i; f.k = r.below(400); f.n = 1; p.faults.push_back(f); }
  }
}

struct World { Built b; std::vector<X3> X, base; double h; GeoRef g; int dim; int sub; };

static Entity_type cell_et(const World& w, int c) { return w.b.ref.cghost[c] == 2 ? Entity_type::BOUNDARY_GHOST : w.b.ref.cghost[c] ? Entity_type::PARALLEL_GHOST : Entity_type::PARALLEL_OWNED; }
static std::vector<int> by_type(const World& w, Entity_kind k, const std::vector<int>& cell_of, int q) {
  std::vector<int> v;
  for (int i = 0; i < (int)cell_of.size(); ++i) { if (q == 2 || w.b.ref.cghost[cell_of[i]] == q) v.push_back(i); }
  return v;
}
static void check_lists(const World& w, Entity_kind k, const char* nm, const std::vector<int>& cell_of) {
  const Jali::Mesh& m = *w.b.mesh;
  for (int q = 0; q < 3; ++q) {
    std::vector<int> want = by_type(w, k, cell_of, q), got = entities(m, k, PTYPES[q]);
    if (sorted(got) != want) failf("sub-lists", "%s %ss are %s, expected %s", PTNAME[q], nm, str(sorted(got)).c_str(), str(want).c_str());
    if (num_by_template(m, k, PTYPES[q]) != (int)want.size() || (int)m.num_entities(k, PTYPES[q]) != (int)want.size()) failf("sub-counts", "%s %ss: %zu in the list, counted %d and %d", PTNAME[q], nm, want.size(), num_by_template(m, k, PTYPES[q]), (int)m.num_entities(k, PTYPES[q]));
  }
  std::vector<int> bg; for (int i = 0; i < (int)cell_of.size(); ++i) if (w.b.ref.cghost[cell_of[i]] == 2) bg.push_back(i);
  const Entity_type BG = Entity_type::BOUNDARY_GHOST;
  std::vector<int> got = k == Entity_kind::SIDE ? m.sides<BG>() : k == Entity_kind::WEDGE ? m.wedges<BG>() : m.corners<BG>();
  int n = (int)(k == Entity_kind::SIDE ? m.num_sides<BG>() : k == Entity_kind::WEDGE ? m.num_wedges<BG>() : m.num_corners<BG>());
  if (sorted(got) != bg || n != (int)bg.size() || m.num_entities(k, BG) != bg.size()) failf("sub-lists", "boundary ghost %ss are %s (counted %d and %d), expected %s", nm, str(sorted(got)).c_str(), n, (int)m.num_entities(k, BG), str(bg).c_str());
  for (int i = 0; i < (int)cell_of.size(); ++i) if (m.entity_get_type(k, i) != cell_et(w, cell_of[i])) failf("sub-type", "%s %d has a type different from its cell %d", nm, i, cell_of[i]);
}

// all adjacencies, against the independent description
static void check_topology(const World& w) {
  const Jali::Mesh& m = *w.b.mesh; const Ref& r = w.b.ref;
  int nc = r.nc_(), ns = m.num_sides(), nw = m.num_wedges(), nk = m.num_corners();
  // sides
  std::vector<int> scell(ns, -1); int want_sides = 0;
  for (int c = 0; c < nc; ++c) {
    L l = {-5, -6}; m.cell_get_sides(c, &l);
    std::set<std::pair<int, int> > fe;
    for (int s : l) {
      if (s < 0 || s >= ns || scell[s] >= 0) failf("side-cell", "side %d of cell %d is invalid or already belongs to cell %d", s, c, s >= 0 && s < ns ? scell[s] : -1);
      scell[s] = c;
      if (m.side_get_cell(s) != c) failf("side-cell", "side %d is listed by cell %d but reports cell %d", s, c, m.side_get_cell(s));
      int f = m.side_get_face(s), e = m.side_get_edge(s);
      if (std::find(r.cf[c].begin(), r.cf[c].end(), f) == r.cf[c].end()) failf("side-face", "side %d of cell %d reports face %d which is not a face of the cell", s, c, f);
      if (std::find(r.fe[f].begin(), r.fe[f].end(), e) == r.fe[f].end()) failf("side-edge", "side %d reports edge %d which is not an edge of its face %d", s, e, f);
      if (!fe.insert(std::make_pair(f, e)).second) failf("side-duplicate", "cell %d has two sides at face %d and edge %d", c, f, e);
      int n0 = m.side_get_node(s, 0), n1 = m.side_get_node(s, 1), use = m.side_get_edge_use(s);
      if (w.dim == 1) { if (n0 != r.fn[f][0] || n1 != n0) failf("side-node", "side %d has nodes %d,%d, its face is node %d", s, n0, n1, r.fn[f][0]); }
      else {
        int a = r.en[e][0], b = r.en[e][1];
        if (!((n0 == a && n1 == b && use == 1) || (n0 == b && n1 == a && use != 1))) failf("side-node", "side %d has nodes %d,%d and edge use %d, its edge is %d,%d", s, n0, n1, use, a, b);
        // orientation: the cell sees the face ccw from outside (2D: the polygon ccw)
        int k = (int)(std::find(r.cf[c].begin(), r.cf[c].end(), f) - r.cf[c].begin()), dir = r.cd[c][k];
        const IV& fn = r.fn[f]; bool fwd = false;
        if (w.dim == 2) fwd = fn[0] == n0;
        else for (size_t i = 0; i < fn.size(); ++i) if (fn[i] == n0 && fn[(i + 1) % fn.size()] == n1) fwd = true;
        if (w.dim == 2 ? fwd != (dir == 1) : fwd != (dir == -1)) failf("side-orientation", "side %d of cell %d: nodes %d,%d are not in the order that gives positive volume", s, c, n0, n1);
      }
    }
    for (int f : r.cf[c]) for (int e : r.fe[f]) { ++want_sides; if (!fe.count(std::make_pair(f, e))) failf("side-missing", "cell %d has no side at face %d, edge %d", c, f, e); }
  }
  if (want_sides != ns) failf("side-count", "%d sides, expected %d", ns, want_sides);
  check_lists(w, Entity_kind::SIDE, "side", scell);
  for (int s = 0; s < ns; ++s) {
    int o = m.side_get_opposite_side(s), f = m.side_get_face(s);
    bool inner = r.fc[f].size() > 1;
    if (!inner) { if (o != -1) failf("side-opposite", "side %d lies on the boundary but has opposite side %d", s, o); continue; }
    if (o < 0 || o >= ns) failf("side-opposite", "side %d has no opposite side although its face %d has two cells", s, f);
    if (m.side_get_opposite_side(o) != s || m.side_get_face(o) != f || m.side_get_edge(o) != m.side_get_edge(s) || scell[o] == scell[s]) failf("side-opposite", "side %d and its opposite side %d are not mutually opposite", s, o);
  }
  if (w.sub < 2) return;
  std::vector<int> wcell(nw, -1), wside(nw, -1);
  for (int s = 0; s < ns; ++s) for (int k = 0; k < 2; ++k) {
    int x = m.side_get_wedge(s, k);
    if (x < 0 || x >= nw || wside[x] >= 0) failf("wedge-side", "wedge %d of side %d is invalid or belongs to another side", x, s);
    wside[x] = s; wcell[x] = scell[s];
    if (m.wedge_get_side(x) != s) failf("wedge-side", "wedge %d is listed by side %d but reports side %d", x, s, m.wedge_get_side(x));
    if (m.wedge_get_cell(x) != scell[s] || m.wedge_get_face(x) != m.side_get_face(s) || m.wedge_get_edge(x) != m.side_get_edge(s) || m.wedge_get_node(x) != m.side_get_node(s, k))
      failf("wedge-adjacency", "wedge %d (cell %d face %d edge %d node %d) does not match its side %d", x, m.wedge_get_cell(x), m.wedge_get_face(x), m.wedge_get_edge(x), m.wedge_get_node(x), s);
    int a = m.wedge_get_adjacent_wedge(x);
    if (a != m.side_get_wedge(s, 1 - k) || m.wedge_get_adjacent_wedge(a) != x) failf("wedge-adjacent", "wedge %d: adjacent wedge %d is not the other wedge of its side", x, a);
    int o = m.wedge_get_opposite_wedge(x), so = m.side_get_opposite_side(s);
    if (so < 0) { if (o != -1) failf("wedge-opposite", "wedge %d lies on the boundary but has opposite wedge %d", x, o); }
    else if (o < 0 || o >= nw || m.wedge_get_opposite_wedge(o) != x || m.wedge_get_side(o) != so || m.wedge_get_face(o) != m.wedge_get_face(x) || m.wedge_get_edge(o) != m.wedge_get_edge(x) || m.wedge_get_cell(o) == m.wedge_get_cell(x) ||
             (m.wedge_get_node(o) != m.wedge_get_node(x))) failf("wedge-opposite", "wedge %d and its opposite wedge %d are not mutually opposite", x, o);
  }
  for (int i = 0; i < nw; ++i) if (wside[i] < 0) failf("wedge-side", "wedge %d belongs to no side", i);
  for (int c = 0; c < nc; ++c) {
    L l = {-3}; m.cell_get_wedges(c, &l);
    std::vector<int> want; for (int i = 0; i < nw; ++i) if (wcell[i] == c) want.push_back(i);
    if (sorted(l) != want) failf("wedge-cell", "cell %d lists wedges %s, expected %s", c, str(sorted(l)).c_str(), str(want).c_str());
  }
  check_lists(w, Entity_kind::WEDGE, "wedge", wcell);
  if (w.sub < 3) {
    for (int n = 0; n < (int)r.X.size(); ++n) (void)n;
    return;
  }
  std::vector<int> kcell(nk, -1), knode(nk, -1), wcorner(nw, -1);
  for (int c = 0; c < nc; ++c) {
    L l = {-3}; m.cell_get_corners(c, &l);
    std::set<int> nodes;
    for (int k : l) {
      if (k < 0 || k >= nk || kcell[k] >= 0) failf("corner-cell", "corner %d of cell %d is invalid or belongs to another cell", k, c);
      kcell[k] = c; knode[k] = m.corner_get_node(k);
      if (m.corner_get_cell(k) != c) failf("corner-cell", "corner %d is listed by cell %d but reports cell %d", k, c, m.corner_get_cell(k));
      if (!nodes.insert(knode[k]).second) failf("corner-node", "cell %d has two corners at node %d", c, knode[k]);
      if (m.cell_get_corner_at_node(c, knode[k]) != k) failf("corner-node", "cell %d and node %d have corner %d, lookup returns %d", c, knode[k], k, m.cell_get_corner_at_node(c, knode[k]));
    }
    if (nodes != std::set<int>(r.cn[c].begin(), r.cn[c].end())) failf("corner-node", "corners of cell %d are at nodes %s, its nodes are %s", c, str(std::vector<int>(nodes.begin(), nodes.end())).c_str(), str(sorted(r.cn[c])).c_str());
  }
  for (int k = 0; k < nk; ++k) {
    if (kcell[k] < 0) failf("corner-cell", "corner %d belongs to no cell", k);
    L l = {-3}; m.corner_get_wedges(k, &l);
    for (int x : l) {
      if (x < 0 || x >= nw || wcorner[x] >= 0) failf("corner-wedges", "wedge %d of corner %d is invalid or in another corner", x, k);
      wcorner[x] = k;
      if (m.wedge_get_corner(x) != k || wcell[x] != kcell[k] || m.wedge_get_node(x) != knode[k]) failf("corner-wedges", "wedge %d (corner %d, cell %d, node %d) is listed by corner %d of cell %d, node %d", x, m.wedge_get_corner(x), wcell[x], m.wedge_get_node(x), k, kcell[k], knode[k]);
    }
  }
  for (int i = 0; i < nw; ++i) if (wcorner[i] < 0) failf("corner-wedges", "wedge %d is in no corner", i);
  check_lists(w, Entity_kind::CORNER, "corner", kcell);
  for (int n = 0; n < (int)r.X.size(); ++n) for (int q = 0; q < 3; ++q) {
    std::vector<int> wk, ww; int gh;
    for (int k = 0; k < nk; ++k) if (knode[k] == n) { gh = r.cghost[kcell[k]]; if (q == 2 || q == gh) wk.push_back(k); }
    for (int i = 0; i < nw; ++i) if (knode[wcorner[i]] == n) { gh = r.cghost[wcell[i]]; if (q == 2 || q == gh) ww.push_back(i); }
    L l = {-3}; m.node_get_corners(n, PTYPES[q], &l);
    if (sorted(l) != wk) failf("node-corners", "%s corners of node %d are %s, expected %s", PTNAME[q], n, str(sorted(l)).c_str(), str(wk).c_str());
    l = {-3, -4}; m.node_get_wedges(n, PTYPES[q], &l);
    if (sorted(l) != ww) failf("node-wedges", "%s wedges of node %d are %s, expected %s", PTNAME[q], n, str(sorted(l)).c_str(), str(ww).c_str());
  }
}

static double tet(V3 a, V3 b, V3 c, V3 d) { return dot(cross(b - a, c - a), d - a) / 6; }
static bool samept(const World& w, V3 a, V3 b) { return close(a, b, 10 * w.g.scale); }
static void cell_geometry(const World& w, int c, bool rc) {
  const Jali::Mesh& m = *w.b.mesh; const Ref& r = w.b.ref; int dim = w.dim;
  double sc = w.g.scale, sa = dim == 3 ? sc * sc : sc, sv = dim == 3 ? sc * sc * sc : sc * sc;
  if (w.g.spherical) { sa = 15 * sc * sc; sv = sa * sc; }
  if (r.cghost[c] == 2) {  // has no extent
    L l; m.cell_get_sides(c, &l);
    double t = std::fabs(m.cell_volume(c)); for (int s : l) t += std::fabs(m.side_volume(s)) + len(v3(m.side_facet_normal(s), dim));
    if (w.sub > 1) { m.cell_get_wedges(c, &l); for (int x : l) t += std::fabs(m.wedge_volume(x)); }
    if (w.sub > 2) { m.cell_get_corners(c, &l); for (int k : l) t += std::fabs(m.corner_volume(k)); }
    if (!(t == 0)) failf("boundary-ghost-extent", "boundary ghost cell %d or its sub-cells have an extent", c);
    return;
  }
  auto degenerate = [&](int s) { return r.cghost[m.side_get_cell(s)] == 2; };
  bool planar = w.g.cplanar[c] != 0;
  double cv = m.cell_volume(c, rc);
  L sl; m.cell_get_sides(c, &sl);
  double tot = 0; V3 nsum; std::map<int, V3> fsum;
  for (int s : sl) {
    double v = m.side_volume(s, rc); tot += v;
    if (!(v > 0)) failf("side-positive", "side %d of cell %d has volume %.15g", s, c, v);
    V3 n = v3(m.side_facet_normal(s, rc), dim);
    nsum = nsum + n; V3& q = fsum[m.side_get_face(s)]; q = q + n;
    // outward
    V3 to = v3(m.face_centroid(m.side_get_face(s), rc), dim) - v3(m.cell_centroid(c, rc), dim);
    if (!(dot(to, n) > 0) && !(w.g.spherical && len(n) == 0)) failf("side-outward", "side %d of cell %d: facet normal (%g,%g,%g) does not point outward", s, c, n.x, n.y, n.z);
    int o = m.side_get_opposite_side(s);
    if (o >= 0 && planar && !degenerate(o)) { V3 on = v3(m.side_facet_normal(o, rc), dim); if (!close(on, -1.0 * n, sa)) failf("opposite-normal", "sides %d and %d do not see opposite normals of their common facet", s, o); }
    if (!rc) {
      std::vector<Point> x, y;
      m.side_get_coordinates(s, &x); m.side_get_coordinates(s, &y, true);
      if ((int)x.size() != dim + 1 || y.size() != x.size()) failf("side-coords", "side %d has %zu and %zu points", s, x.size(), y.size());
      V3 a = v3(x[0], dim), b = v3(x[1], dim), cc = v3(m.cell_centroid(c), dim), fc = v3(m.face_centroid(m.side_get_face(s)), dim);
      V3 n0 = v3(m_coord(m, m.side_get_node(s, 0), dim), dim), n1 = v3(m_coord(m, m.side_get_node(s, 1), dim), dim);
      bool ok = samept(w, a, n0);
      if (dim == 1) ok = ok && samept(w, b, cc); else ok = ok && samept(w, b, n1) && samept(w, v3(x[dim], dim), cc) && (dim == 2 || samept(w, v3(x[2], dim), fc));
      if (!ok) failf("side-coords", "side %d: coordinates are not those of its nodes and centres", s);
      double sv2 = dim == 1 ? v3(y[1], 1).x - v3(y[0], 1).x : dim == 2 ? 0.5 * cross(v3(y[1], 2) - v3(y[0], 2), v3(y[2], 2) - v3(y[0], 2)).z : tet(v3(y[0], 3), v3(y[1], 3), v3(y[2], 3), v3(y[3], 3));
      if (w.g.spherical) { double p0 = y[0][0], p1 = y[1][0]; sv2 = 4 * 3.14159265358979323846 / 3 * (p1 * p1 * p1 - p0 * p0 * p0); }
      if (!close(sv2, v, sv)) failf("side-coords", "side %d: coordinates in positive order enclose %.15g, volume is %.15g", s, sv2, v);
    }
  }
  if (planar && !close(tot, cv, sv)) failf("side-sum", "sides of cell %d add up to %.15g, its volume is %.15g", c, tot, cv);
  if (!w.g.spherical && !close(nsum, V3(), 10 * sa)) failf("closed-cell", "facet normals of the sides of cell %d add up to (%g,%g,%g)", c, nsum.x, nsum.y, nsum.z);
  if (planar) for (auto& kv : fsum) {
    int k = (int)(std::find(r.cf[c].begin(), r.cf[c].end(), kv.first) - r.cf[c].begin());
    V3 fn = v3(m.face_normal(kv.first, rc, c), dim); (void)k;
    if (!close(kv.second, fn, 10 * sa)) failf("facet-sum", "facets of face %d add up to (%g,%g,%g) in cell %d, the face normal is (%g,%g,%g)", kv.first, kv.second.x, kv.second.y, kv.second.z, c, fn.x, fn.y, fn.z);
  }
  if (w.sub < 2) return;
  tot = 0;
  L wl; m.cell_get_wedges(c, &wl);
  for (int x : wl) {
    double v = m.wedge_volume(x, rc); tot += v;
    if (!(v > 0)) failf("wedge-positive", "wedge %d of cell %d has volume %.15g", x, c, v);
    V3 n0 = v3(m.wedge_facet_normal(x, 0, rc), dim), n1 = v3(m.wedge_facet_normal(x, 1, rc), dim);
    int a = m.wedge_get_adjacent_wedge(x), o = m.wedge_get_opposite_wedge(x);
    if (dim > 1 && !close(v3(m.wedge_facet_normal(a, 1, rc), dim), -1.0 * n1, sa)) failf("adjacent-normal", "wedges %d and %d do not see opposite normals of their common facet", x, a);
    if (o >= 0 && planar && !degenerate(m.wedge_get_side(o)) && !close(v3(m.wedge_facet_normal(o, 0, rc), dim), -1.0 * n0, sa)) failf("opposite-normal", "wedges %d and %d do not see opposite normals of their common facet", x, o);
    if (!rc) {
      std::vector<Point> q, y; m.wedge_get_coordinates(x, &q); m.wedge_get_coordinates(x, &y, true);
      if ((int)q.size() != dim + 1 || y.size() != q.size()) failf("wedge-coords", "wedge %d has %zu and %zu points", x, q.size(), y.size());
      V3 nd = v3(m_coord(m, m.wedge_get_node(x), dim), dim), cc = v3(m.cell_centroid(c), dim), fc = v3(m.face_centroid(m.wedge_get_face(x)), dim);
      bool ok = samept(w, v3(q[0], dim), nd) && samept(w, v3(q[dim], dim), cc);
      if (dim == 2) ok = ok && samept(w, v3(q[1], 2), fc);
      if (dim == 3) { auto e = w.b.ref.en[m.wedge_get_edge(x)]; ok = ok && samept(w, v3(q[1], 3), 0.5 * (v3(w.X[e[0]]) + v3(w.X[e[1]]))) && samept(w, v3(q[2], 3), fc); }
      if (!ok) failf("wedge-coords", "wedge %d: coordinates are not node, edge centre, face centre, cell centre", x);
      if (dim > 1) {
        double wv = dim == 2 ? 0.5 * cross(v3(y[1], 2) - v3(y[0], 2), v3(y[2], 2) - v3(y[0], 2)).z : tet(v3(y[0], 3), v3(y[1], 3), v3(y[2], 3), v3(y[3], 3));
        if (!close(wv, v, sv)) failf("wedge-coords", "wedge %d: coordinates in positive order enclose %.15g, volume is %.15g", x, wv, v);
      } else if (!(y[1][0] > y[0][0])) failf("wedge-coords", "wedge %d: coordinates are not in positive order", x);
    }
  }
  if (planar && !close(tot, cv, sv)) failf("wedge-sum", "wedges of cell %d add up to %.15g, its volume is %.15g", c, tot, cv);
  if (w.sub < 3) return;
  tot = 0;
  L kl; m.cell_get_corners(c, &kl);
  for (int k : kl) { double v = m.corner_volume(k, rc); tot += v; if (!(v > 0)) failf("corner-positive", "corner %d of cell %d has volume %.15g", k, c, v); }
  if (planar && !close(tot, cv, sv)) failf("corner-sum", "corners of cell %d add up to %.15g, its volume is %.15g", c, tot, cv);
}
// facetization and coordinates of one corner (cached geometry only)
template <size_t N> static void get_facets(const Jali::Mesh& m, int k, std::vector<Point>* x, std::vector<std::vector<int> >* f) {
  std::vector<std::array<Entity_ID, N> > a(3); x->assign(2, Point(1));
  m.corner_get_facetization(k, x, &a);
  for (auto& t : a) f->push_back(std::vector<int>(t.begin(), t.end()));
}
static void corner_geometry(const World& w, int k) {
  const Jali::Mesh& m = *w.b.mesh; int dim = w.dim;
  double sc = w.g.scale, sa = dim == 3 ? sc * sc : sc, sv = dim == 3 ? sc * sc * sc : sc * sc;
  int c = m.corner_get_cell(k), n = m.corner_get_node(k);
  if (w.b.ref.cghost[c] == 2) return;
  L wl; m.corner_get_wedges(k, &wl);
  double kv = m.corner_volume(k), wv = 0; V3 nsum;
  for (int x : wl) { wv += m.wedge_volume(x); nsum = nsum + v3(m.wedge_facet_normal(x, 0), dim) + v3(m.wedge_facet_normal(x, 1), dim); }
  if (!close(kv, wv, w.g.spherical ? 15 * sc * sc * sc : sv)) failf("corner-volume", "corner %d has volume %.15g, its wedges %.15g", k, kv, wv);
  if (dim > 1 && !close(nsum, V3(), 10 * sa)) failf("closed-corner", "facet normals of the wedges of corner %d add up to (%g,%g,%g)", k, nsum.x, nsum.y, nsum.z);
  // the points a corner consists of
  std::vector<V3> pts; pts.push_back(v3(m_coord(m, n, dim), dim)); pts.push_back(v3(m.cell_centroid(c), dim));
  if (dim > 1) {
    std::set<int> fs, es; for (int x : wl) { fs.insert(m.wedge_get_face(x)); es.insert(m.wedge_get_edge(x)); }
    for (int f : fs) pts.push_back(v3(m.face_centroid(f), dim));
    if (dim == 3) for (int e : es) pts.push_back(0.5 * (v3(w.X[w.b.ref.en[e][0]]) + v3(w.X[w.b.ref.en[e][1]])));
  }
  auto same_points = [&](const std::vector<Point>& x, const char* what) {
    if (x.size() != pts.size()) failf("corner-points", "corner %d: %s has %zu points, expected %zu", k, what, x.size(), pts.size());
    std::vector<char> used(pts.size(), 0);
    for (auto& q : x) {
      bool hit = false;
      for (size_t i = 0; i < pts.size() && !hit; ++i) if (!used[i] && samept(w, pts[i], v3(q, dim))) used[i] = 1, hit = true;
      if (!hit) failf("corner-points", "corner %d: %s contains a point that is none of node, edge, face and cell centres", k, what);
    }
  };
  std::vector<Point> cx(3, Point(dim)); m.corner_get_coordinates(k, &cx);
  same_points(cx, "coordinate list");
  if (dim == 1 && !(cx[1][0] > cx[0][0])) failf("corner-points", "corner %d: coordinates not in positive order", k);
  if (dim == 2) {
    double A = 0; for (size_t i = 0; i < cx.size(); ++i) A += 0.5 * cross(v3(cx[i], 2), v3(cx[(i + 1) % cx.size()], 2)).z;
    if (!close(A, kv, sv)) failf("corner-points", "corner %d: its points in order enclose %.15g, its volume is %.15g", k, A, kv);
  }
  std::vector<Point> fx; std::vector<std::vector<int> > fp;
  if (dim == 1) get_facets<1>(m, k, &fx, &fp); else if (dim == 2) get_facets<2>(m, k, &fx, &fp); else get_facets<3>(m, k, &fx, &fp);
  same_points(fx, "facetization");
  if (dim == 1) { if (fp.size() != 2) failf("corner-facets", "1D corner %d has %zu facets", k, fp.size()); return; }
  std::map<std::pair<int, int>, int> half; double V = 0; V3 N;
  std::map<int, int> deg;
  for (auto& t : fp) {
    for (int i : t) if (i < 0 || i >= (int)fx.size()) failf("corner-facets", "corner %d: facet refers to point %d of %zu", k, i, fx.size());
    if (dim == 2) {
      V3 a = v3(fx[t[0]], 2), b = v3(fx[t[1]], 2);
      V += 0.5 * cross(a, b).z; deg[t[0]]++; deg[t[1]]--;
    } else {
      V3 a = v3(fx[t[0]], 3), b = v3(fx[t[1]], 3), d = v3(fx[t[2]], 3);
      V += dot(a, cross(b, d)) / 6; N = N + 0.5 * cross(b - a, d - a);
      for (int i = 0; i < 3; ++i) { if (++half[std::make_pair(t[i], t[(i + 1) % 3])] > 1) failf("corner-facets", "corner %d: facets are not consistently oriented", k); }
    }
  }
  if (dim == 2 && fp.size() != 4) failf("corner-facets", "2D corner %d has %zu facets", k, fp.size());
  if (dim == 2) for (auto& q : deg) if (q.second) failf("corner-facets", "corner %d: facets do not close", k);
  if (dim == 3) for (auto& q : half) if (!half.count(std::make_pair(q.first.second, q.first.first))) failf("corner-facets", "corner %d: facets do not close at points %d,%d", k, q.first.first, q.first.second);
  if (!close(V, kv, 10 * sv)) failf("corner-facets", "corner %d: outward facets enclose %.15g, its volume is %.15g", k, V, kv);
  if (dim == 3 && !close(N, V3(), 10 * sa)) failf("corner-facets", "corner %d: facet normals add up to (%g,%g,%g)", k, N.x, N.y, N.z);
}

static void run(const Plan& p) {
  World w;
  MeshSpec s = get_spec(p, "");
  if (s.mk == MK_SIMPLE3) s.mk = MK_3D;
  if (s.sub == 0) s.sub = 1;
  if (s.mk == MK_SIMPLE1 && p.get("sph", 0)) s.spherical = true;
  w.b = build_mesh(s);
  if (w.b.ref.nc_() == 0) return;
  w.dim = w.b.dim(); w.sub = s.sub;
  w.X = w.base = w.b.ref.X;
  w.h = 1e30;
  for (auto& c : w.b.ref.cn) for (size_t i = 0; i < c.size(); ++i) for (size_t j = i + 1; j < c.size(); ++j) w.h = std::min(w.h, len(v3(w.X[c[i]]) - v3(w.X[c[j]])));
  Jali::Mesh& m = *w.b.mesh;
  bool dirty = false, moved = false; int size = 0;
  auto georefresh = [&]() { w.g = georef(w.b.ref, w.X, s.spherical); };
  auto set_node = [&](int n) { double c[3] = {w.X[n][0], w.X[n][1], w.X[n][2]}; m.node_set_coordinates(n, c); };
  georefresh();
  check_topology(w);
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i];
    Rng r(o.a[1] * 977 + 13);
    if (o.kind == O_MOVE) {
      int n = (int)(o.a[0] % w.X.size());
      if (w.dim == 3 && s.shape != 3 && o.a[2] % 4) continue;  // mostly keep faces planar
      for (int d = 0; d < w.dim; ++d) w.X[n][d] = w.base[n][d] + 0.1 * w.h * (r.unit() - 0.5);
      if (s.spherical && n == 0 && w.X[n][0] < 0) w.X[n][0] = 0;
      set_node(n); dirty = moved = true;
      trace("[%zu] move node %d", i, n);
    } else if (o.kind == O_AFFINE) {
      double A[3][3], t[3];
      for (int a = 0; a < 3; ++a) { t[a] = s.spherical ? 0 : (double)r.range(-2, 2); for (int b = 0; b < 3; ++b) A[a][b] = a == b ? 0.9 + 0.4 * r.unit() : 0.1 * (r.unit() - 0.5); }
      if (r.chance(1, 4)) {  // a shift and larger or smaller, nothing else
        int k = (int)r.range(-4, 4); k = std::max(-6, std::min(6, size + k)) - size; size += k; w.h = std::ldexp(w.h, k);
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) A[a][b] = a == b ? std::ldexp(1.0, k) : 0;
      }
      for (int n = 0; n < (int)w.X.size(); ++n) for (auto* v : {&w.X, &w.base}) {
        X3 q = {{0, 0, 0}};
        for (int a = 0; a < w.dim; ++a) { q[a] = t[a]; for (int b = 0; b < w.dim; ++b) q[a] += A[a][b] * (*v)[n][b]; }
        (*v)[n] = q;
      }
      for (int n = 0; n < (int)w.X.size(); ++n) set_node(n);
      dirty = moved = true;
      trace("[%zu] affine motion", i);
    } else if (o.kind == O_UPDATE) {
      AllocFault af(p, (int)i);
      bool failed = false;
      try { m.update_geometric_quantities(); } catch (const std::bad_alloc&) { failed = true; }
      af.end();
      if (failed) { probe("update interrupted by allocation failure"); m.update_geometric_quantities(); }
      dirty = false; georefresh();
      trace("[%zu] update", i);
    } else if (o.kind == O_TOPO) {
      check_topology(w);
      trace("[%zu] topology", i);
    } else if (o.kind == O_CELL) {
      int c = (int)(o.a[0] % w.b.ref.nc_());
      georefresh();
      cell_geometry(w, c, dirty || o.a[2] % 2);
      trace("[%zu] cell %d", i, c);
    } else if (s.sub == 3 && !dirty) {
      georefresh();
      corner_geometry(w, (int)(o.a[0] % m.num_corners()));
      trace("[%zu] corner", i);
    }
    sim::log((uint64_t)o.kind);
  }
  if (dirty) m.update_geometric_quantities();
  georefresh();
  Hash h; int planar = 0;
  for (int c = 0; c < w.b.ref.nc_(); ++c) { cell_geometry(w, c, false); planar += w.g.cplanar[c]; }
  if (w.dim < 3 || w.b.ref.nc_() <= 8) for (int c = 0; c < w.b.ref.nc_(); ++c) cell_geometry(w, c, true);
  if (s.sub == 3) for (int k = 0; k < (int)m.num_corners(); ++k) corner_geometry(w, k);
  check_topology(w);
  for (int i = 0; i < (int)m.num_sides(); ++i) { log_d(m.side_volume(i)); h.add(m.side_get_node(i, 0)); h.add(m.side_get_opposite_side(i)); }
  state_hash(h.h);

  if (moved) probe("nodes moved");
  if (planar && w.b.ref.nc_() > 1) note_nontrivial();
  if (s.nranks > 1 && s.gl > 0) probe("mesh with parallel ghosts");
}

namespace sim {
extern const Workload workload = {
    "C07", names, NOPS, generate, run,
    "one case = one simulated run: a mesh with sides, wedges or corners (polygonal, polyhedral, one rank of a distributed mesh, 1D built-in), a random history of node moves, updates (some interrupted by an allocation failure) and checks of adjacencies, volumes, normals, coordinates and facetizations; non-trivial when the mesh has at least two cells, some with planar faces",
    "Mesh (sides, wedges, corners and their geometry), Geometry, Mesh_simple (1D)",
    "mesh framework for polygonal/polyhedral and distributed meshes (SimMesh, behind the abstract Mesh interface), MPI communicator",
    "sums of volumes are compared for cells with planar faces|cells are convex or star-shaped about their centroid",
    true};
}
