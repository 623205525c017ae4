// SimMesh: a stub mesh framework behind the library's own framework seam
// (the abstract class Jali::Mesh).  It plays the part of the external
// framework (MSTK): polygonal 2D and polyhedral 3D meshes, distributed with
// ghost layers, labelled sets and field storage ("disk") with injected
// failures.  Everything above the seam is the library's real code.
#ifndef SIMMESH_HPP_
#define SIMMESH_HPP_
#include "sim.hpp"

#include <array>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <algorithm>

#include "Mesh.hh"
#include "MeshTile.hh"
#include "MeshSet.hh"
#include "GeometricModel.hh"
#include "LabeledSetRegion.hh"
#include "errors.hh"

namespace simm {
using Jali::Entity_ID;
using Jali::Entity_ID_List;
using Jali::Entity_kind;
using Jali::Entity_type;
using Jali::Cell_type;
using Jali::dir_t;
using JaliGeometry::Point;
typedef std::vector<int> IV;
typedef std::array<double, 3> X3;

// ------------------------------------------------------------ global mesh
// Defined by cells given as lists of outward-oriented faces (3D) or as
// counter-clockwise polygons (2D).  An independent description: nothing here
// comes from the library.
struct GMesh {
  int dim = 2;
  int sdim = 0;                    // space dimension, if not dim (surface meshes: 3)
  int space() const { return sdim ? sdim : dim; }
  std::vector<X3> X;
  std::vector<IV> cell_nodes, cell_faces, cell_dirs, cell_edges;
  std::vector<IV> face_nodes, face_edges, face_edirs, face_cells;
  std::vector<std::array<int, 2> > edge_nodes;
  std::vector<IV> node_cells, node_faces;
  std::vector<Cell_type> cell_type;
  std::map<std::string, std::map<int, std::set<int> > > labels;  // label -> kind -> ids
  int nc() const { return (int)cell_nodes.size(); }
  int nreal = -1;                  // cells from here on are boundary ghosts (degenerate cells behind exterior faces)
  bool bnd(int c) const { return nreal >= 0 && c >= nreal; }
  void add_boundary_ghosts(IV& part) {
    nreal = nc();
    for (int f = 0; f < nf(); ++f) {
      if (face_cells[f].size() != 1) continue;
      int c = face_cells[f][0], k = 0, b = nc();
      while (cell_faces[c][k] != f) ++k;
      cell_nodes.push_back(face_nodes[f]); cell_faces.push_back(IV(1, f)); cell_dirs.push_back(IV(1, -cell_dirs[c][k])); cell_edges.push_back(face_edges[f]);
      cell_type.push_back(Cell_type::CELLTYPE_UNKNOWN); face_cells[f].push_back(b);
      for (int n : face_nodes[f]) node_cells[n].push_back(b);
      if (!part.empty()) part.push_back(part[c]);
    }
  }
  int nf() const { return (int)face_nodes.size(); }
  int ne() const { return (int)edge_nodes.size(); }
  int nn() const { return (int)X.size(); }
  int count(Entity_kind k) const {
    switch (k) { case Entity_kind::NODE: return nn(); case Entity_kind::EDGE: return ne(); case Entity_kind::FACE: return nf(); default: return nc(); }
  }

  std::map<IV, int> face_of_;
  std::map<std::array<int, 2>, int> edge_of_;
  std::vector<std::array<int, 2> > flip_;  // unused

  int edge(int a, int b, sim::Rng& r) {
    std::array<int, 2> k = {{std::min(a, b), std::max(a, b)}};
    auto it = edge_of_.find(k);
    if (it != edge_of_.end()) return it->second;
    int id = ne();
    edge_of_[k] = id;
    if (r.chance(1, 2)) edge_nodes.push_back({{a, b}}); else edge_nodes.push_back({{b, a}});
    return id;
  }
  // adds (or finds) a face with the given outward orientation; returns id and dir
  void add_face(int c, const IV& nodes, sim::Rng& r) {
    IV key = nodes; std::sort(key.begin(), key.end());
    auto it = face_of_.find(key);
    int f, dir;
    if (it == face_of_.end()) {
      f = nf(); face_of_[key] = f;
      IV st = nodes;
      std::rotate(st.begin(), st.begin() + r.below((long)st.size()), st.end());
      dir = 1;
      if (dim == 3 && r.chance(1, 2)) { std::reverse(st.begin(), st.end()); dir = -1; }
      if (dim == 2) { st = nodes; if (r.chance(1, 2)) { std::swap(st[0], st[1]); dir = -1; } }
      face_nodes.push_back(st);
      face_cells.push_back(IV());
      IV fe, fd;
      if (dim == 3) {
        for (size_t i = 0; i < st.size(); ++i) {
          int a = st[i], b = st[(i + 1) % st.size()];
          int e = edge(a, b, r);
          fe.push_back(e); fd.push_back(edge_nodes[e][0] == a ? 1 : -1);
        }
      } else {
        int e = ne();
        edge_nodes.push_back({{st[0], st[1]}});
        fe.push_back(e); fd.push_back(1);
      }
      face_edges.push_back(fe); face_edirs.push_back(fd);
    } else {
      f = it->second;
      // second cell: opposite orientation to the first one
      int c0 = face_cells[f][0];
      int d0 = 0;
      for (size_t i = 0; i < cell_faces[c0].size(); ++i) if (cell_faces[c0][i] == f) d0 = cell_dirs[c0][i];
      dir = -d0;
    }
    face_cells[f].push_back(c);
    cell_faces[c].push_back(f);
    cell_dirs[c].push_back(dir);
  }
  void add_cell(const IV& nodes, const std::vector<IV>& faces, Cell_type t, sim::Rng& r) {
    int c = nc();
    cell_nodes.push_back(nodes);
    cell_faces.push_back(IV()); cell_dirs.push_back(IV());
    cell_type.push_back(t);
    for (auto& f : faces) add_face(c, f, r);
  }
  void finish() {
    node_cells.assign(nn(), IV()); node_faces.assign(nn(), IV());
    cell_edges.assign(nc(), IV());
    for (int c = 0; c < nc(); ++c) {
      for (int n : cell_nodes[c]) node_cells[n].push_back(c);
      for (int f : cell_faces[c]) for (int e : face_edges[f])
        if (std::find(cell_edges[c].begin(), cell_edges[c].end(), e) == cell_edges[c].end()) cell_edges[c].push_back(e);
    }
    for (int f = 0; f < nf(); ++f) for (int n : face_nodes[f]) node_faces[n].push_back(f);
  }
};

// options of the generator, all small integers so that the minimiser can shrink them
struct GOpt {
  int dim, nx, ny, nz, shape;  // shape 0 boxes, 1 +triangles, 2 +merged polygons, 3 tets (3D)
  int perturb;                 // 0 regular, 1 perturbed
  uint64_t seed;
};

inline GMesh make_gmesh(const GOpt& o) {
  sim::Rng r(o.seed * 77 + 5);
  GMesh g; g.dim = o.dim;
  int nx = std::max(1, o.nx), ny = std::max(1, o.ny), nz = std::max(1, o.nz);
  double ox = o.seed % 5 == 0 ? 0.0 : (double)r.range(-3, 3), oy = o.seed % 5 == 0 ? 0.0 : (double)r.range(-3, 3), oz = o.seed % 5 == 0 ? 0 : (double)r.range(-3, 3);
  double hx = 0.5 * r.range(1, 4), hy = 0.5 * r.range(1, 4), hz = 0.5 * r.range(1, 4);
  // 2D nodes
  std::vector<X3> N2;
  auto id2 = [&](int i, int j) { return j * (nx + 1) + i; };
  for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
    double x = i * hx, y = j * hy;
    if (o.perturb && i > 0 && i < nx) x += hx * 0.16 * (r.unit() - 0.5);
    if (o.perturb && j > 0 && j < ny) y += hy * 0.16 * (r.unit() - 0.5);
    X3 p = {{ox + x, oy + y, 0}};
    N2.push_back(p);
  }
  std::vector<IV> polys;
  if (o.shape == 3 && o.dim == 3) {
    // Kuhn subdivision of the boxes into 6 tets
    int npl = (nx + 1) * (ny + 1);
    for (int k = 0; k <= nz; ++k) for (int q = 0; q < npl; ++q) { X3 p = N2[q]; p[2] = oz + k * hz; g.X.push_back(p); }
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
      int base[3] = {i, j, k};
      int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
      for (int t = 0; t < 6; ++t) {
        int v[4], cur[3] = {base[0], base[1], base[2]};
        for (int s = 0; s < 4; ++s) { v[s] = cur[2] * npl + id2(cur[0], cur[1]); if (s < 3) cur[perm[t][s]]++; }
        const X3 &a = g.X[v[0]], &b = g.X[v[1]], &c = g.X[v[2]], &d = g.X[v[3]];
        double u[3], w[3], z[3];
        for (int m = 0; m < 3; ++m) { u[m] = b[m] - a[m]; w[m] = c[m] - a[m]; z[m] = d[m] - a[m]; }
        double vol = (u[1] * w[2] - u[2] * w[1]) * z[0] + (u[2] * w[0] - u[0] * w[2]) * z[1] + (u[0] * w[1] - u[1] * w[0]) * z[2];
        if (vol < 0) std::swap(v[2], v[3]);
        // positively oriented: outward faces
        std::vector<IV> f = {{v[0], v[2], v[1]}, {v[0], v[1], v[3]}, {v[1], v[2], v[3]}, {v[0], v[3], v[2]}};
        g.add_cell({v[0], v[1], v[2], v[3]}, f, Cell_type::TET, r);
      }
    }
    g.finish();
    return g;
  }
  std::vector<int> kind(nx * ny, 0);
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
    IV q = {id2(i, j), id2(i + 1, j), id2(i + 1, j + 1), id2(i, j + 1)};
    int s = (o.shape >= 1) ? (int)r.below(4) : 0;
    if (s == 1) { polys.push_back({q[0], q[1], q[2]}); polys.push_back({q[0], q[2], q[3]}); }
    else if (s == 2) { polys.push_back({q[0], q[1], q[3]}); polys.push_back({q[1], q[2], q[3]}); }
    else if (s == 3 && o.shape >= 2 && i + 1 < nx) {
      // merge with the right neighbour: six-noded polygon
      polys.push_back({id2(i, j), id2(i + 1, j), id2(i + 2, j), id2(i + 2, j + 1), id2(i + 1, j + 1), id2(i, j + 1)});
      ++i;
    } else polys.push_back(q);
  }
  r.shuffle(polys);
  for (auto& p : polys) std::rotate(p.begin(), p.begin() + r.below((long)p.size()), p.end());
  // permute node numbers
  int n2 = (int)N2.size();
  if (o.dim == 2) {
    IV perm(n2); for (int i = 0; i < n2; ++i) perm[i] = i;
    r.shuffle(perm);
    g.X.resize(n2); for (int i = 0; i < n2; ++i) g.X[perm[i]] = N2[i];
    for (auto& p : polys) {
      IV q; for (int n : p) q.push_back(perm[n]);
      std::vector<IV> f;
      for (size_t i = 0; i < q.size(); ++i) f.push_back({q[i], q[(i + 1) % q.size()]});
      g.add_cell(q, f, q.size() == 3 ? Cell_type::TRI : q.size() == 4 ? Cell_type::QUAD : Cell_type::POLYGON, r);
    }
  } else {
    int n3 = n2 * (nz + 1);
    IV perm(n3); for (int i = 0; i < n3; ++i) perm[i] = i;
    r.shuffle(perm);
    g.X.resize(n3);
    for (int k = 0; k <= nz; ++k) {
      double z = k * hz;
      if (o.perturb && k > 0 && k < nz) z += hz * 0.16 * (r.unit() - 0.5);
      for (int i = 0; i < n2; ++i) { X3 p = N2[i]; p[2] = oz + z; g.X[perm[k * n2 + i]] = p; }
    }
    std::vector<std::pair<int, int> > order;
    for (int k = 0; k < nz; ++k) for (size_t q = 0; q < polys.size(); ++q) order.push_back(std::make_pair(k, (int)q));
    r.shuffle(order);
    // some cells are divided into pyramids around a new node in the middle
    // (cells in which more than three faces meet at a node)
    sim::Rng r2(o.seed * 131 + 17);
    const int split = o.shape >= 1 && r2.chance(1, 3) ? (int)r2.range(2, 5) : 0;
    for (auto& kq : order) {
      IV lo, hi;
      for (int n : polys[kq.second]) { lo.push_back(perm[kq.first * n2 + n]); hi.push_back(perm[(kq.first + 1) * n2 + n]); }
      std::vector<IV> f;
      for (size_t i = 0; i < lo.size(); ++i) { size_t j = (i + 1) % lo.size(); f.push_back({lo[i], lo[j], hi[j], hi[i]}); }
      IV rl(lo.rbegin(), lo.rend());
      f.push_back(rl); f.push_back(hi);
      if (split && r2.chance(1, split)) {
        int apex = g.nn(); X3 m = {{0, 0, 0}};
        for (int n : lo) for (int d = 0; d < 3; ++d) m[d] += g.X[n][d] / (2 * lo.size());
        for (int n : hi) for (int d = 0; d < 3; ++d) m[d] += g.X[n][d] / (2 * hi.size());
        g.X.push_back(m);
        for (auto& base : f) {  // the faces point outward, as bases of the pyramids too
          IV nodes(base.rbegin(), base.rend()); nodes.push_back(apex);  // the base counter-clockwise seen from the apex
          std::vector<IV> pf = {base};
          for (size_t i = 0; i < base.size(); ++i) pf.push_back({base[(i + 1) % base.size()], base[i], apex});
          g.add_cell(nodes, pf, base.size() == 3 ? Cell_type::TET : base.size() == 4 ? Cell_type::PYRAMID : Cell_type::POLYHED, r);
        }
        continue;
      }
      IV all = lo; all.insert(all.end(), hi.begin(), hi.end());
      g.add_cell(all, f, lo.size() == 3 ? Cell_type::PRISM : lo.size() == 4 ? Cell_type::HEX : Cell_type::POLYHED, r);
    }
  }
  g.finish();
  return g;
}

// ------------------------------------------------------------ field storage
// The framework's field storage (a simulated disk): survives states, can fail.
struct FieldStore {
  struct F { std::string name; int kind; std::string type; int ncomp; std::vector<double> data; };
  // what the framework calls the type of a field with ncomp components
  static const char* type_of(bool isint, int ncomp, int dim) { return isint ? "INT" : ncomp == 1 ? "DOUBLE" : ncomp == dim ? "VECTOR" : "TENSOR"; }
  std::vector<F> f;                 // in order of first write
  std::set<std::string> fail_read, fail_write;  // "name/kind" currently failing
  long reads = 0, writes = 0, failed_reads = 0, failed_writes = 0;
  bool one_kind = false;            // a name can be used for one kind of entity only
  bool torn = false;                // a failing transfer may have moved part of the data
  static std::string key(const std::string& n, int k) { return n + "/" + std::to_string(k); }
  F* find(const std::string& n, int k) { for (auto& x : f) if (x.name == n && x.kind == k) return &x; return nullptr; }
  const F* find(const std::string& n, int k) const { for (auto& x : f) if (x.name == n && x.kind == k) return &x; return nullptr; }
};

struct SimOpts {
  bool faces = true, edges = false, sides = false, wedges = false, corners = false;
  int ntiles = 0, halo = 0, ghost_layers = 1;
  bool bghost = false;
  Jali::Partitioner_type part = Jali::Partitioner_type::METIS;
  JaliGeometry::Geom_type geom = JaliGeometry::Geom_type::CARTESIAN;
};

// One rank's part of a global mesh.
class SimMesh : public Jali::Mesh {
 public:
  // part: rank of each global cell (empty: everything on rank 0)
  SimMesh(const GMesh& g, const IV& part, int rank, const SimOpts& o, MPI_Comm comm,
          JaliGeometry::GeometricModelPtr gm = nullptr, uint64_t numbering = 0)
      : Jali::Mesh(o.faces, o.edges, o.sides, o.wedges, o.corners, o.ntiles, o.halo, o.ghost_layers, o.bghost, o.part, o.geom, comm) {
    build(g, part, rank, o, gm, numbering);
  }
  // ---- options as the library received them
  struct Seen { bool faces, edges, sides, wedges, corners; int ntiles, halo, ghost_layers; bool bghost; Jali::Partitioner_type part; };

  IV c_g, n_g, f_g, e_g;                        // local -> global
  std::map<int, int> c_l, n_l, f_l, e_l;        // global -> local
  std::shared_ptr<FieldStore> store = std::make_shared<FieldStore>();
  const IV& cghost() const { return ctype_; }
  const IV& nghost() const { return ntype_; }
  const IV& fghost() const { return ftype_; }
  const IV& eghost() const { return etype_; }
  const std::map<int, int>& g2l(Entity_kind k) const {
    switch (k) { case Entity_kind::NODE: return n_l; case Entity_kind::EDGE: return e_l; case Entity_kind::FACE: return f_l; default: return c_l; }
  }
  const IV& l2g(Entity_kind k) const {
    switch (k) { case Entity_kind::NODE: return n_g; case Entity_kind::EDGE: return e_g; case Entity_kind::FACE: return f_g; default: return c_g; }
  }

 protected:
  void build(const GMesh& g, const IV& part, int rank, const SimOpts& o, JaliGeometry::GeometricModelPtr gm, uint64_t numbering) {
    {
      sim::AllocPause ap;  // the framework's own set-up; faults target the library
      set_space_dimension(g.space()); set_manifold_dimension(g.dim);
      set_mesh_type(Jali::Mesh_type::GENERAL);
      sim::Rng r(numbering * 31 + 7);
      auto owner = [&](int c) { return part.empty() ? 0 : part[c]; };
      // cells: owned, then ghosts layer by layer
      IV own, ghost; std::set<int> in;
      for (int c = 0; c < g.nc(); ++c) if (owner(c) == rank && !g.bnd(c)) { own.push_back(c); in.insert(c); }
      for (int l = 0; l < o.ghost_layers; ++l) {
        std::set<int> nw;
        for (int c : in) for (int n : g.cell_nodes[c]) for (int c2 : g.node_cells[n]) if (!in.count(c2) && !g.bnd(c2)) nw.insert(c2);
        for (int c : nw) { ghost.push_back(c); in.insert(c); }
      }
      if (numbering) { r.shuffle(own); r.shuffle(ghost); }
      auto place = [&](const IV& a, const IV& b, IV& to_g, std::map<int, int>& to_l, std::vector<int>& l_own, std::vector<int>& l_ghost, std::vector<int>& l_all) {
        to_g = a; to_g.insert(to_g.end(), b.begin(), b.end());
        for (size_t i = 0; i < to_g.size(); ++i) { to_l[to_g[i]] = (int)i; l_all.push_back((int)i); if (i < a.size()) l_own.push_back((int)i); else l_ghost.push_back((int)i); }
      };
      place(own, ghost, c_g, c_l, cellids_owned_, cellids_ghost_, cellids_all_);
      for (int c = 0; c < g.nc(); ++c) if (g.bnd(c) && owner(c) == rank) {
        int l = (int)c_g.size(); c_g.push_back(c); c_l[c] = l; cellids_boundary_ghost_.push_back(l); cellids_all_.push_back(l);
      }
      std::vector<std::vector<int> > fcells(g.face_cells), ncells(g.node_cells), ecells(g.ne());
      for (int c = 0; c < g.nc(); ++c) for (int e : g.cell_edges[c]) ecells[e].push_back(c);
      auto split = [&](const std::set<int>& present, const std::vector<std::vector<int> >& up, IV& a, IV& b) {
        for (int x : present) {
          int m = 1 << 30;
          for (int c : up[x]) m = std::min(m, owner(c));
          (m == rank ? a : b).push_back(x);
        }
        if (numbering) { r.shuffle(a); r.shuffle(b); }
      };
      std::set<int> ns, fs, es;
      for (int c : in) { ns.insert(g.cell_nodes[c].begin(), g.cell_nodes[c].end()); fs.insert(g.cell_faces[c].begin(), g.cell_faces[c].end()); es.insert(g.cell_edges[c].begin(), g.cell_edges[c].end()); }
      { IV a, b; split(ns, ncells, a, b); place(a, b, n_g, n_l, nodeids_owned_, nodeids_ghost_, nodeids_all_); }
      IV fa, fb;
      split(fs, fcells, fa, fb);
      { std::vector<int> o1, o2, o3; if (faces_requested) place(fa, fb, f_g, f_l, faceids_owned_, faceids_ghost_, faceids_all_); else place(fa, fb, f_g, f_l, o1, o2, o3); }
      {
        IV a, b;
        if (g.dim == 2) { a = fa; b = fb; } else split(es, ecells, a, b);
        etype_.assign(a.size() + b.size(), 0);
        for (size_t i = a.size(); i < etype_.size(); ++i) etype_[i] = 1;
        std::vector<int> o1, o2, o3;
        if (edges_requested) place(a, b, e_g, e_l, edgeids_owned_, edgeids_ghost_, edgeids_all_); else place(a, b, e_g, e_l, o1, o2, o3);
      }
      auto L = [](const std::map<int, int>& m, int x) { return m.at(x); };
      for (int c : c_g) {
        IV n, f, d, e;
        for (int x : g.cell_nodes[c]) n.push_back(L(n_l, x));
        for (int x : g.cell_faces[c]) f.push_back(L(f_l, x));
        for (int x : g.cell_edges[c]) e.push_back(L(e_l, x));
        cn_.push_back(n); cf_.push_back(f); cd_.push_back(g.cell_dirs[c]); ce_.push_back(e); ct_.push_back(g.cell_type[c]);
      }
      nc_.assign(n_g.size(), IV()); nf_.assign(n_g.size(), IV()); fc_.assign(f_g.size(), IV());
      for (size_t c = 0; c < c_g.size(); ++c) { for (int n : cn_[c]) nc_[n].push_back((int)c); for (int f : cf_[c]) fc_[f].push_back((int)c); }
      for (size_t f = 0; f < f_g.size(); ++f) {
        IV n, e, d;
        for (int x : g.face_nodes[f_g[f]]) { n.push_back(L(n_l, x)); nf_[L(n_l, x)].push_back((int)f); }
        for (int x : g.face_edges[f_g[f]]) e.push_back(L(e_l, x));
        fn_.push_back(n); fe_.push_back(e); fd_.push_back(g.face_edirs[f_g[f]]);
      }
      for (int e : e_g) en_.push_back({{L(n_l, g.edge_nodes[e][0]), L(n_l, g.edge_nodes[e][1])}});
      for (int n : n_g) X_.push_back(g.X[n]);
      ctype_.assign(c_g.size(), 0); ntype_.assign(n_g.size(), 0); ftype_.assign(f_g.size(), 0);
      for (size_t i = own.size(); i < c_g.size(); ++i) ctype_[i] = g.bnd(c_g[i]) ? 2 : 1;
      for (size_t i = 0; i < n_g.size(); ++i) ntype_[i] = i >= nodeids_owned_.size();
      for (size_t i = 0; i < f_g.size(); ++i) ftype_[i] = i >= fa.size();
      labels_ = g.labels;
      set_geometric_model(gm);
    }
    cache_extra_variables();
    if (num_tiles_ini_) build_tiles();
    if (geometric_model_ != nullptr) init_sets_from_geometric_model();
  }
  static bool want(int ghost, Entity_type t) {
    if (t == Entity_type::ALL) return true;
    if (t == Entity_type::PARALLEL_OWNED) return ghost == 0;
    if (t == Entity_type::PARALLEL_GHOST) return ghost == 1;
    if (t == Entity_type::BOUNDARY_GHOST) return ghost == 2;
    return false;
  }

 public:
  Cell_type cell_get_type(const Entity_ID c) const override { return ct_[c]; }
  Entity_ID GID(const Entity_ID lid, const Entity_kind kind) const override { return l2g(kind)[lid]; }
  void cell_get_nodes(const Entity_ID c, Entity_ID_List* n) const override { *n = cn_[c]; }
  void face_get_nodes(const Entity_ID f, Entity_ID_List* n) const override { *n = fn_[f]; }
  void node_get_cells(const Entity_ID n, const Entity_type t, Entity_ID_List* out) const override {
    out->clear(); for (int c : nc_[n]) if (want(ctype_[c], t)) out->push_back(c);
  }
  void node_get_faces(const Entity_ID n, const Entity_type t, Entity_ID_List* out) const override {
    out->clear(); for (int f : nf_[n]) if (want(ftype_[f], t)) out->push_back(f);
  }
  void node_get_cell_faces(const Entity_ID n, const Entity_ID c, const Entity_type t, Entity_ID_List* out) const override {
    out->clear();
    for (int f : cf_[c]) if (want(ftype_[f], t) && std::find(fn_[f].begin(), fn_[f].end(), n) != fn_[f].end()) out->push_back(f);
  }
  void cell_get_face_adj_cells(const Entity_ID c, const Entity_type t, Entity_ID_List* out) const override {
    out->clear();
    for (int f : cf_[c]) for (int c2 : fc_[f]) if (c2 != c && want(ctype_[c2], t)) out->push_back(c2);
  }
  void cell_get_node_adj_cells(const Entity_ID c, const Entity_type t, Entity_ID_List* out) const override {
    out->clear();
    for (int n : cn_[c]) for (int c2 : nc_[n])
      if (c2 != c && want(ctype_[c2], t) && std::find(out->begin(), out->end(), c2) == out->end()) out->push_back(c2);
  }
  using Jali::Mesh::node_get_coordinates;
  void node_get_coordinates(const Entity_ID n, Point* p) const override {
    if (space_dim_ == 3) p->set(X_[n][0], X_[n][1], X_[n][2]);
    else p->set(X_[n][0], X_[n][1]);
  }
  void face_get_coordinates(const Entity_ID f, std::vector<Point>* p) const override {
    p->resize(fn_[f].size()); for (size_t i = 0; i < fn_[f].size(); ++i) node_get_coordinates(fn_[f][i], &(*p)[i]);
  }
  void cell_get_coordinates(const Entity_ID c, std::vector<Point>* p) const override {
    p->resize(cn_[c].size()); for (size_t i = 0; i < cn_[c].size(); ++i) node_get_coordinates(cn_[c][i], &(*p)[i]);
  }
  void node_set_coordinates(const Entity_ID n, const Point p) override { for (unsigned d = 0; d < space_dim_; ++d) X_[n][d] = p[d]; }
  void node_set_coordinates(const Entity_ID n, const double* p) override { for (unsigned d = 0; d < space_dim_; ++d) X_[n][d] = p[d]; }

 protected:
  static void dirs(const IV& in, std::vector<dir_t>* out) { if (out) { out->clear(); for (int d : in) out->push_back((dir_t)d); } }
  void cell_get_faces_and_dirs_internal(const Entity_ID c, Entity_ID_List* f, std::vector<dir_t>* d, const bool) const override { *f = cf_[c]; dirs(cd_[c], d); }
  void face_get_cells_internal(const Entity_ID f, const Entity_type t, Entity_ID_List* out) const override {
    out->clear(); for (int c : fc_[f]) if (want(ctype_[c], t)) out->push_back(c);
  }
  void face_get_edges_and_dirs_internal(const Entity_ID f, Entity_ID_List* e, std::vector<dir_t>* d, const bool) const override { *e = fe_[f]; dirs(fd_[f], d); }
  void cell_get_edges_internal(const Entity_ID c, Entity_ID_List* e) const override { *e = ce_[c]; }
  void cell_2D_get_edges_and_dirs_internal(const Entity_ID c, Entity_ID_List* e, std::vector<dir_t>* d) const override { *e = ce_[c]; dirs(cd_[c], d); }
  void edge_get_nodes_internal(const Entity_ID e, Entity_ID* a, Entity_ID* b) const override { *a = en_[e][0]; *b = en_[e][1]; }
  void get_labeled_set_entities(const JaliGeometry::LabeledSetRegionPtr rgn, const Entity_kind kind, Entity_ID_List* own, Entity_ID_List* gh) const override {
    own->clear(); gh->clear();
    auto it = labels_.find(rgn->label());
    if (it == labels_.end()) return;
    auto jt = it->second.find((int)kind);
    if (jt == it->second.end()) return;
    for (int gid : jt->second) {
      auto lt = g2l(kind).find(gid);
      if (lt == g2l(kind).end()) continue;
      int ghost = kind == Entity_kind::CELL ? ctype_[lt->second] : kind == Entity_kind::FACE ? ftype_[lt->second] : kind == Entity_kind::NODE ? ntype_[lt->second] : etype_[lt->second];
      (ghost ? gh : own)->push_back(lt->second);
    }
  }
  // ---- field storage
  void get_field_info(Entity_kind k, int* num, std::vector<std::string>* names, std::vector<std::string>* types) const override {
    *num = 0; names->clear(); types->clear();
    for (auto& f : store->f) if (f.kind == (int)k) { names->push_back(f.name); types->push_back(f.type); ++*num; }
  }
  template <class G> bool get(const std::string& n, Entity_kind k, bool isint, int ncomp, G put) const {
    store->reads++;
    const FieldStore::F* f = store->find(n, (int)k);
    bool match = f && f->ncomp == ncomp && (f->type == "INT") == isint;
    if (store->fail_read.count(FieldStore::key(n, (int)k))) {
      store->failed_reads++; sim::fault_fired(sim::F_FIELD);
      if (store->torn && match) for (size_t i = 0; i < f->data.size() / 2; ++i) put(i, -12345.0);
      return false;
    }
    if (!match) return false;
    for (size_t i = 0; i < f->data.size(); ++i) put(i, f->data[i]);
    return true;
  }
  template <class G> bool put(const std::string& n, Entity_kind k, bool isint, int ncomp, G at) {
    sim::AllocPause ap;
    store->writes++;
    if (store->fail_write.count(FieldStore::key(n, (int)k))) { store->failed_writes++; sim::fault_fired(sim::F_FIELD); return false; }
    // the storage knows scalars, vectors and symmetric tensors of the mesh's dimension
    if (ncomp != 1 && ncomp != (int)space_dim_ && ncomp != (int)(space_dim_ * (space_dim_ + 1) / 2)) return false;
    FieldStore::F* f = store->find(n, (int)k);
    if (f && (f->ncomp != ncomp || (f->type == "INT") != isint)) return false;  // exists with another type
    if (!f && store->one_kind) for (auto& x : store->f) if (x.name == n) return false;  // exists on another kind
    if (!f) { store->f.push_back(FieldStore::F()); f = &store->f.back(); f->name = n; f->kind = (int)k; }
    f->type = FieldStore::type_of(isint, ncomp, (int)space_dim_); f->ncomp = ncomp;
    size_t cnt = num_entities(k, Entity_type::ALL) * (size_t)ncomp;
    f->data.resize(cnt);
    for (size_t i = 0; i < cnt; ++i) f->data[i] = at(i);
    return true;
  }
  typedef std::array<double, (std::size_t)2> A2; typedef std::array<double, (std::size_t)3> A3; typedef std::array<double, (std::size_t)6> A6;
  bool get_field(std::string n, Entity_kind k, int* d) const override { return get(n, k, true, 1, [&](size_t i, double v) { d[i] = (int)v; }); }
  bool get_field(std::string n, Entity_kind k, double* d) const override { return get(n, k, false, 1, [&](size_t i, double v) { d[i] = v; }); }
  bool get_field(std::string n, Entity_kind k, A2* d) const override { return get(n, k, false, 2, [&](size_t i, double v) { d[i / 2][i % 2] = v; }); }
  bool get_field(std::string n, Entity_kind k, A3* d) const override { return get(n, k, false, 3, [&](size_t i, double v) { d[i / 3][i % 3] = v; }); }
  bool get_field(std::string n, Entity_kind k, A6* d) const override { return get(n, k, false, 6, [&](size_t i, double v) { d[i / 6][i % 6] = v; }); }
  bool store_field(std::string n, Entity_kind k, int* d) override { return put(n, k, true, 1, [&](size_t i) { return (double)d[i]; }); }
  bool store_field(std::string n, Entity_kind k, double* d) override { return put(n, k, false, 1, [&](size_t i) { return d[i]; }); }
  bool store_field(std::string n, Entity_kind k, A2* d) override { return put(n, k, false, 2, [&](size_t i) { return d[i / 2][i % 2]; }); }
  bool store_field(std::string n, Entity_kind k, A3* d) override { return put(n, k, false, 3, [&](size_t i) { return d[i / 3][i % 3]; }); }
  bool store_field(std::string n, Entity_kind k, A6* d) override { return put(n, k, false, 6, [&](size_t i) { return d[i / 6][i % 6]; }); }

 public:
  std::vector<X3> X_;

 private:
  std::vector<IV> cn_, cf_, cd_, ce_, fn_, fe_, fd_, fc_, nc_, nf_;
  std::vector<std::array<int, 2> > en_;
  std::vector<Cell_type> ct_;
  IV ctype_, ntype_, ftype_, etype_;
  std::map<std::string, std::map<int, std::set<int> > > labels_;
};

// a random partition of the cells over nr ranks, every rank non-empty if possible
inline IV make_partition(const GMesh& g, int nr, sim::Rng& r) {
  IV p(g.nc(), 0);
  if (nr <= 1) return p;
  int mode = (int)r.below(3);
  for (int c = 0; c < g.nc(); ++c) {
    if (mode == 0) p[c] = (int)r.below(nr);
    else if (mode == 1) p[c] = c * nr / g.nc();
    else {
      double x = 0; for (int n : g.cell_nodes[c]) x += g.X[n][0]; x /= g.cell_nodes[c].size();
      double lo = 1e30, hi = -1e30; for (auto& q : g.X) { lo = std::min(lo, q[0]); hi = std::max(hi, q[0]); }
      p[c] = std::min(nr - 1, (int)((x - lo) / (hi - lo + 1e-9) * nr));
    }
  }
  return p;
}
}  // namespace simm
#endif
