// Independent reference for mesh geometry: computed from node coordinates and
// the independent adjacency description only.
#ifndef GEOMREF_HPP_
#define GEOMREF_HPP_
#include "meshcfg.hpp"
#include <cstring>

namespace simm {
struct V3 { double x = 0, y = 0, z = 0; };
inline V3 v3(const X3& p) { V3 v; v.x = p[0]; v.y = p[1]; v.z = p[2]; return v; }
inline V3 v3(const Point& p, int dim) { V3 v; v.x = p[0]; if (dim > 1) v.y = p[1]; if (dim > 2) v.z = p[2]; return v; }
inline V3 operator+(V3 a, V3 b) { a.x += b.x; a.y += b.y; a.z += b.z; return a; }
inline V3 operator-(V3 a, V3 b) { a.x -= b.x; a.y -= b.y; a.z -= b.z; return a; }
inline V3 operator*(double s, V3 a) { a.x *= s; a.y *= s; a.z *= s; return a; }
inline V3 cross(V3 a, V3 b) { V3 c; c.x = a.y * b.z - a.z * b.y; c.y = a.z * b.x - a.x * b.z; c.z = a.x * b.y - a.y * b.x; return c; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline double len(V3 a) { return std::sqrt(dot(a, a)); }

inline Point m_coord(const Jali::Mesh& m, int n, int dim) { Point p(dim); m.node_get_coordinates(n, &p); return p; }

struct GeoRef {
  int dim = 2, sdim = 2; bool spherical = false;
  std::vector<std::vector<V3> > cfnorm;     // surface meshes: outward normals of each cell's faces, in the order of the cell's faces
  double scale = 1;               // typical coordinate size, for tolerances
  std::vector<double> cvol, farea, elen;
  std::vector<V3> ccen, fcen, fnorm, evec;  // fnorm: natural normal (positive direction)
  std::vector<char> fplanar, cplanar;       // face (all faces of the cell) planar
  std::vector<char> none;                   // cells without extent (boundary ghosts)
  bool has_extent(int c) const { return none.empty() || !none[c]; }
};
// X: current coordinates (local numbering)
inline GeoRef georef(const Ref& r, const std::vector<X3>& X, bool spherical) {
  GeoRef g; g.dim = r.dim; g.sdim = r.space(); g.spherical = spherical;
  double m = 1e-12; for (auto& p : X) for (double d : p) m = std::max(m, std::fabs(d));
  g.scale = m;
  size_t nf = r.fn.size(), nc = r.cn.size();
  g.farea.resize(nf); g.fcen.resize(nf); g.fnorm.resize(nf); g.fplanar.assign(nf, 1); g.cplanar.assign(nc, 1);
  const double PI = 3.14159265358979323846;
  for (size_t f = 0; f < nf; ++f) {
    const IV& n = r.fn[f];
    if (r.dim == 1) {
      double x = X[n[0]][0];
      g.farea[f] = spherical ? 4 * PI * x * x : 1.0;
      g.fcen[f] = v3(X[n[0]]); g.fnorm[f].x = g.farea[f];
    } else if (r.dim == 2) {
      V3 a = v3(X[n[0]]), b = v3(X[n[1]]);
      g.farea[f] = len(b - a); g.fcen[f] = 0.5 * (a + b);
      if (g.sdim == 2) { g.fnorm[f].x = b.y - a.y; g.fnorm[f].y = -(b.x - a.x); }
    } else {
      V3 N; V3 o = v3(X[n[0]]);
      for (size_t i = 0; i < n.size(); ++i) N = N + 0.5 * cross(v3(X[n[i]]) - o, v3(X[n[(i + 1) % n.size()]]) - o);
      double A = len(N);
      g.fnorm[f] = N; g.farea[f] = A;
      for (size_t i = 0; i < n.size(); ++i) if (A > 0 && std::fabs(dot(v3(X[n[i]]) - o, N)) / A > 1e-11 * g.scale) g.fplanar[f] = 0;
      // centroid of a planar polygon
      V3 C; double w = 0;
      for (size_t i = 1; i + 1 < n.size(); ++i) {
        V3 p = v3(X[n[i]]), q = v3(X[n[i + 1]]);
        double a = 0.5 * dot(cross(p - o, q - o), N) / (A > 0 ? A : 1);
        C = C + (a / 3) * (o + p + q); w += a;
      }
      g.fcen[f] = w != 0 ? (1 / w) * C : o;
    }
  }
  g.cvol.resize(nc); g.ccen.resize(nc);
  for (size_t c = 0; c < nc; ++c) {
    const IV& n = r.cn[c];
    V3 o; for (int q : n) o = o + v3(X[q]);
    o = (1.0 / n.size()) * o;
    if (r.dim == 1) {
      double a = X[n[0]][0], b = X[n[1]][0];
      g.cvol[c] = spherical ? 4 * PI / 3 * (b * b * b - a * a * a) : b - a;
      g.ccen[c].x = 0.5 * (a + b);
    } else if (r.dim == 2 && g.sdim == 3) {
      V3 N, C; double A = 0; size_t m = n.size();
      for (size_t i = 0; i < m; ++i) N = N + 0.5 * cross(v3(X[n[i]]) - o, v3(X[n[(i + 1) % m]]) - o);
      V3 u = (1 / len(N)) * N;
      for (size_t i = 0; i < m; ++i) {
        V3 p = v3(X[n[i]]) - o, q = v3(X[n[(i + 1) % m]]) - o;
        if (std::fabs(dot(p, u)) > 1e-11 * g.scale) g.cplanar[c] = 0;
        double a = 0.5 * dot(cross(p, q), u); A += a; C = C + (a / 3) * (p + q);
      }
      g.cvol[c] = A; g.ccen[c] = o + (1 / A) * C;
      std::vector<V3> out;
      for (int f : r.cf[c]) {  // the face's edge, in the direction it has in the cell
        V3 e = v3(X[r.fn[f][1]]) - v3(X[r.fn[f][0]]);
        for (size_t i = 0; i < m; ++i) if (n[i] == r.fn[f][1] && n[(i + 1) % m] == r.fn[f][0]) e = -1.0 * e;
        out.push_back(cross(e, u));
      }
      g.cfnorm.push_back(out);
    } else if (r.dim == 2) {
      double A = 0; V3 C;
      for (size_t i = 0; i < n.size(); ++i) {
        V3 p = v3(X[n[i]]) - o, q = v3(X[n[(i + 1) % n.size()]]) - o;
        double a = 0.5 * (p.x * q.y - p.y * q.x);
        A += a; C = C + (a / 3) * (p + q);
      }
      g.cvol[c] = A; g.ccen[c] = o + (1 / A) * C;
    } else {
      // faces split into triangles around the mean of their nodes
      double V = 0; V3 C;
      for (size_t i = 0; i < r.cf[c].size(); ++i) {
        int f = r.cf[c][i]; const IV& fn = r.fn[f];
        if (!g.fplanar[f]) g.cplanar[c] = 0;
        V3 fc; for (int q : fn) fc = fc + v3(X[q]);
        fc = (1.0 / fn.size()) * fc;
        for (size_t j = 0; j < fn.size(); ++j) {
          V3 p = v3(X[fn[j]]), q = v3(X[fn[(j + 1) % fn.size()]]);
          double t = r.cd[c][i] * dot(cross(p - o, q - o), fc - o) / 6;
          V += t; C = C + (t / 4) * (p + q + fc + o);
        }
      }
      g.cvol[c] = V; g.ccen[c] = (1 / V) * C;
    }
  }
  for (auto& e : r.en) { V3 d = v3(X[e[1]]) - v3(X[e[0]]); g.evec.push_back(d); g.elen.push_back(len(d)); }
  return g;
}
inline bool close(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * scale && a == a; }
inline bool close(V3 a, V3 b, double scale) { return close(a.x, b.x, scale) && close(a.y, b.y, scale) && close(a.z, b.z, scale); }

// requested kinds of a mesh spec
inline bool spec_has(const MeshSpec& s, Entity_kind k) {
  bool sub = s.sub > 0;
  switch (k) {
    case Entity_kind::EDGE: return s.edges || sub;
    case Entity_kind::FACE: return s.faces || sub;
    case Entity_kind::SIDE: return s.sub >= 1;
    case Entity_kind::WEDGE: return s.sub >= 2;
    case Entity_kind::CORNER: return s.sub >= 3;
    default: return true;
  }
}

// Everything the mesh reports about its geometry, in a fixed order.
struct GeoDump {
  struct Item { const char* what; int id; double v; };
  std::vector<Item> v;
  void d(const char* w, int i, double x) { Item t = {w, i, x}; v.push_back(t); }
  void p(const char* w, int i, const Point& q) { d(w, i, (double)q.dim()); for (int k = 0; k < (int)q.dim(); ++k) d(w, i, q[k]); }
};
// step/off: only every step-th sub-cell entity (recomputing them is expensive).
struct Sample { int step = 1, off = 0; bool in(int i) const { return i % step == off % step; } };
inline GeoDump geodump(const Jali::Mesh& m, const MeshSpec& s, bool recompute, bool subcoords, Sample sm = Sample()) {
  GeoDump o;
  int nc = m.num_cells(), nf = m.num_faces(), ne = m.num_edges();
  auto bnd = [&](int c) { return s.bghost && m.entity_get_type(Entity_kind::CELL, c) == Entity_type::BOUNDARY_GHOST; };  // no extent, so no centroid either
  for (int c = 0; c < nc; ++c) if (!bnd(c)) { o.d("cell volume", c, m.cell_volume(c, recompute)); o.p("cell centroid", c, m.cell_centroid(c, recompute)); }
  if (spec_has(s, Entity_kind::FACE)) for (int f = 0; f < nf; ++f) {
    o.d("face area", f, m.face_area(f, recompute)); o.p("face centroid", f, m.face_centroid(f, recompute));
    o.p("face normal", f, m.face_normal(f, recompute));
    L fc; m.face_get_cells(f, Entity_type::ALL, &fc);
    for (int c : fc) { int dir = 0; o.p("outward face normal", f, m.face_normal(f, recompute, c, &dir)); o.d("face normal orientation", f, dir); }
  }
  if (spec_has(s, Entity_kind::EDGE)) for (int e = 0; e < ne; ++e) {
    o.d("edge length", e, m.edge_length(e, recompute)); o.p("edge vector", e, m.edge_vector(e, recompute)); if (subcoords) o.p("edge centroid", e, m.edge_centroid(e));
  }
  int ns = m.num_sides(), nw = m.num_wedges(), nk = m.num_corners();
  if (spec_has(s, Entity_kind::SIDE)) for (int i = 0; i < ns; ++i) if (sm.in(i) && !bnd(m.side_get_cell(i))) {
    o.d("side volume", i, m.side_volume(i, recompute)); o.p("side facet normal", i, m.side_facet_normal(i, recompute));
    if (subcoords) { std::vector<Point> x; m.side_get_coordinates(i, &x); for (auto& q : x) o.p("side coordinates", i, q); }
  }
  if (spec_has(s, Entity_kind::WEDGE)) for (int i = 0; i < nw; ++i) if (sm.in(i) && !bnd(m.wedge_get_cell(i))) {
    o.d("wedge volume", i, m.wedge_volume(i, recompute));
    o.p("wedge facet 0 normal", i, m.wedge_facet_normal(i, 0, recompute)); o.p("wedge facet 1 normal", i, m.wedge_facet_normal(i, 1, recompute));
    if (subcoords) { std::vector<Point> x; m.wedge_get_coordinates(i, &x); for (auto& q : x) o.p("wedge coordinates", i, q); }
  }
  if (spec_has(s, Entity_kind::CORNER)) for (int i = 0; i < nk; ++i) if (sm.in(i) && !bnd(m.corner_get_cell(i))) {
    o.d("corner volume", i, m.corner_volume(i, recompute));
    if (subcoords) { std::vector<Point> x; m.corner_get_coordinates(i, &x); for (auto& q : x) o.p("corner coordinates", i, q); }
  }
  return o;
}
inline void dump_equal(const GeoDump& a, const GeoDump& b, double scale, const char* cls, const char* when) {
  if (a.v.size() != b.v.size()) sim::failf(cls, "%s: %zu values against %zu", when, a.v.size(), b.v.size());
  for (size_t i = 0; i < a.v.size(); ++i) {
    if (a.v[i].id != b.v[i].id || strcmp(a.v[i].what, b.v[i].what)) sim::failf(cls, "%s: different quantities reported at position %zu: %s of %d, %s of %d", when, i, a.v[i].what, a.v[i].id, b.v[i].what, b.v[i].id);
    double sc = std::max(std::max(scale, scale * scale * scale), std::max(std::fabs(a.v[i].v), std::fabs(b.v[i].v)));
    if (!close(a.v[i].v, b.v[i].v, sc)) sim::failf(cls, "%s: %s of %d is %.17g, expected %.17g", when, a.v[i].what, a.v[i].id, a.v[i].v, b.v[i].v);
  }
}
// reported values against the independent reference
inline void check_georef(const Jali::Mesh& m, const MeshSpec& s, const Ref& r, const GeoRef& g, bool recompute, const char* when, Sample sm = Sample()) {
  int dim = g.sdim; bool surf = g.dim == 2 && g.sdim == 3; double sc = g.scale, sa = sc * sc, sv = g.dim == 3 ? sc * sc * sc : sa;
  if (g.spherical) { sa *= 15; sv = sa * sc; }
  for (int c = 0; c < r.nc_(); ++c) {
    if (surf && !g.cplanar[c]) continue;
    double v = m.cell_volume(c, recompute);
    if (!g.has_extent(c)) { if (!recompute && !close(v, 0, sv)) sim::failf("cell-volume", "%s: boundary ghost %d has volume %.15g", when, c, v); continue; }
    if (!close(v, g.cvol[c], sv)) sim::failf("cell-volume", "%s: cell %d has volume %.15g, coordinates give %.15g", when, c, v, g.cvol[c]);
    V3 x = v3(m.cell_centroid(c, recompute), dim);
    if (!close(x, g.ccen[c], 100 * sc)) sim::failf("cell-centroid", "%s: cell %d has centroid (%g,%g,%g), coordinates give (%g,%g,%g)", when, c, x.x, x.y, x.z, g.ccen[c].x, g.ccen[c].y, g.ccen[c].z);
  }
  if (spec_has(s, Entity_kind::FACE)) for (int f = 0; f < (int)r.fn.size(); ++f) {
    if (!g.fplanar[f]) continue;
    double a = m.face_area(f, recompute);
    if (!close(a, g.farea[f], sa)) sim::failf("face-area", "%s: face %d has area %.15g, coordinates give %.15g", when, f, a, g.farea[f]);
    V3 x = v3(m.face_centroid(f, recompute), dim);
    if (!close(x, g.fcen[f], 10 * sc)) sim::failf("face-centroid", "%s: face %d has centroid (%g,%g,%g), coordinates give (%g,%g,%g)", when, f, x.x, x.y, x.z, g.fcen[f].x, g.fcen[f].y, g.fcen[f].z);
    V3 n = v3(m.face_normal(f, recompute), dim);
    if (surf) {
      for (int c : r.fc[f]) {
        int k = (int)(std::find(r.cf[c].begin(), r.cf[c].end(), f) - r.cf[c].begin()), dir = 0;
        V3 o = v3(m.face_normal(f, recompute, c, &dir), dim), w = g.cfnorm[c][k];
        if (dir != r.cd[c][k]) sim::failf("face-direction", "%s: face %d has direction %d in cell %d, expected %d", when, f, dir, c, r.cd[c][k]);
        if (!g.cplanar[c]) continue;
        if (!close(o, w, sa)) sim::failf("face-normal", "%s: face %d as seen from cell %d of a surface mesh has normal (%g,%g,%g), expected (%g,%g,%g)", when, f, c, o.x, o.y, o.z, w.x, w.y, w.z);
        if (dir == 1 || r.fc[f].size() == 1) { V3 q = (double)dir * w; if (!close(n, q, sa)) sim::failf("face-normal", "%s: face %d of a surface mesh has normal (%g,%g,%g), expected (%g,%g,%g)", when, f, n.x, n.y, n.z, q.x, q.y, q.z); }
      }
      continue;
    }
    if (!close(n, g.fnorm[f], sa)) sim::failf("face-normal", "%s: face %d has normal (%g,%g,%g), coordinates give (%g,%g,%g)", when, f, n.x, n.y, n.z, g.fnorm[f].x, g.fnorm[f].y, g.fnorm[f].z);
    for (int c : r.fc[f]) {
      int k = (int)(std::find(r.cf[c].begin(), r.cf[c].end(), f) - r.cf[c].begin()), dir = 0;
      V3 o = v3(m.face_normal(f, recompute, c, &dir), dim);
      if (dir != r.cd[c][k]) sim::failf("face-direction", "%s: face %d has direction %d in cell %d, expected %d", when, f, dir, c, r.cd[c][k]);
      if (!close(o, (double)r.cd[c][k] * g.fnorm[f], sa)) sim::failf("face-normal", "%s: face %d as seen from cell %d has normal (%g,%g,%g), expected %d x (%g,%g,%g)", when, f, c, o.x, o.y, o.z, r.cd[c][k], g.fnorm[f].x, g.fnorm[f].y, g.fnorm[f].z);
    }
  }
  if (spec_has(s, Entity_kind::EDGE)) for (int e = 0; e < (int)r.en.size(); ++e) {
    double l = m.edge_length(e, recompute);
    if (!close(l, g.elen[e], sc)) sim::failf("edge-length", "%s: edge %d has length %.15g, coordinates give %.15g", when, e, l, g.elen[e]);
    V3 v = v3(m.edge_vector(e, recompute), dim);
    if (!close(v, g.evec[e], sc)) sim::failf("edge-vector", "%s: edge %d has vector (%g,%g,%g), coordinates give (%g,%g,%g)", when, e, v.x, v.y, v.z, g.evec[e].x, g.evec[e].y, g.evec[e].z);
    int o1 = 0, o2 = 0;
    V3 a = v3(m.edge_vector(e, recompute, r.en[e][0], &o1), dim), b = v3(m.edge_vector(e, recompute, r.en[e][1], &o2), dim);
    if (dim > 1 && (!close(a, v, sc) || !close(b, -1.0 * v, sc) || o1 != 1 || o2 != -1)) sim::failf("edge-vector", "%s: edge %d: vectors seen from its nodes are not opposite", when, e);
  }
  // sub-cell quantities, from the nodes and the centroids
  int ns = m.num_sides(), nw = m.num_wedges(), nk = m.num_corners();
  if (spec_has(s, Entity_kind::SIDE)) for (int i = 0; i < ns; ++i) if (sm.in(i)) {
    int c = m.side_get_cell(i), f = m.side_get_face(i);
    if (!g.has_extent(c)) { double v = m.side_volume(i, recompute); if (!recompute && !close(v, 0, sv)) sim::failf("side-volume", "%s: side %d of a boundary ghost has volume %.15g", when, i, v); continue; }
    V3 cc = v3(m.cell_centroid(c, recompute), dim), fc = v3(m.face_centroid(f, recompute), dim), on, mid; double v;
    if (dim == 1) {
      double x = g.ccen[c].x, y = g.fcen[f].x;
      v = g.spherical ? std::fabs(x * x * x - y * y * y) * 4 * 3.14159265358979323846 / 3 : std::fabs(x - y);
      on.x = (y > x ? 1 : -1) * g.farea[f];
    } else {
      V3 a = v3(m_coord(m, m.side_get_node(i, 0), dim), dim), b = v3(m_coord(m, m.side_get_node(i, 1), dim), dim), em = 0.5 * (a + b);
      if (dim == 2) {
        v = 0.5 * std::fabs(cross(b - a, cc - a).z);
        on.x = (b - a).y; on.y = -(b - a).x; if (dot(on, cc - a) > 0) on = -1.0 * on;
        V3 t = cc - em; mid.x = t.y; mid.y = -t.x; if (dot(mid, b - a) < 0) mid = -1.0 * mid;
      } else {
        v = std::fabs(dot(cross(b - a, fc - a), cc - a)) / 6;
        on = 0.5 * cross(b - a, fc - a); if (dot(on, cc - a) > 0) on = -1.0 * on;
        mid = 0.5 * cross(fc - em, cc - em); if (dot(mid, b - a) < 0) mid = -1.0 * mid;
      }
    }
    bool convex = true;
    double sv1 = m.side_volume(i, recompute);
    if (!close(std::fabs(sv1), v, sv)) sim::failf("side-volume", "%s: side %d has volume %.15g, coordinates give %.15g", when, i, sv1, v);
    if (sv1 < -1e-9 * sv) convex = false;
    V3 n = v3(m.side_facet_normal(i, recompute), dim);
    if (convex && !close(n, on, sa)) sim::failf("side-normal", "%s: side %d has outward normal (%g,%g,%g), expected (%g,%g,%g)", when, i, n.x, n.y, n.z, on.x, on.y, on.z);
    if (spec_has(s, Entity_kind::WEDGE)) for (int k = 0; k < 2; ++k) {
      int w = m.side_get_wedge(i, k);
      double wv = m.wedge_volume(w, recompute);
      if (!close(wv, sv1 / 2, sv)) sim::failf("wedge-volume", "%s: wedge %d has volume %.15g, half its side is %.15g", when, w, wv, sv1 / 2);
      V3 n0 = v3(m.wedge_facet_normal(w, 0, recompute), dim), n1 = v3(m.wedge_facet_normal(w, 1, recompute), dim);
      if (!close(n0, 0.5 * n, sa)) sim::failf("wedge-normal", "%s: wedge %d: normal of facet 0 is not half its side's", when, w);
      if (dim > 1 && convex) {
        // points from the node of the wedge towards the middle of its edge
        V3 want = m.wedge_get_node(w) == m.side_get_node(i, 0) ? mid : -1.0 * mid;
        if (!close(n1, want, sa)) sim::failf("wedge-normal", "%s: wedge %d: normal of facet 1 is (%g,%g,%g), expected (%g,%g,%g)", when, w, n1.x, n1.y, n1.z, want.x, want.y, want.z);
      }
    }
  }
  (void)nw;
  if (spec_has(s, Entity_kind::CORNER)) for (int i = 0; i < nk; ++i) if (sm.in(i)) {
    if (recompute && !g.has_extent(m.corner_get_cell(i))) continue;
    L ws; m.corner_get_wedges(i, &ws);
    double v = 0; for (int w : ws) v += m.wedge_volume(w, recompute);
    double k = m.corner_volume(i, recompute);
    if (!close(k, v, sv)) sim::failf("corner-volume", "%s: corner %d has volume %.15g, its wedges add up to %.15g", when, i, k, v);
  }
}
}  // namespace simm
#endif
