// Meshes of a run, described by small integer configuration values (so that
// the minimiser can shrink them), plus the independent adjacency description
// used as oracle.
#ifndef MESHCFG_HPP_
#define MESHCFG_HPP_
#include "simmesh.hpp"
#include <iostream>
#include "Mesh_simple.hh"

namespace simm {

// Names of which one begins, ends or contains another, or differs in case, in blanks or at the end of a long text only
inline std::string tricky(const std::string& base, long i) {
  switch (i) {
    case 0: return base;
    case 1: return base + "1";
    case 2: return base + "10";
    case 3: return base + "1 ";
    case 4: return "x" + base;
    case 5: { std::string b = base; b[0] = (char)std::toupper(b[0]); return b; }
    case 6: return base + " " + base;
    case 7: case 8: return base + " " + std::string(140, '=') + (i == 7 ? "7" : "8");
    default: return base + std::to_string(i + 4);
  }
}

using sim::Plan;
using sim::Rng;

// the library's chatter on std::cerr is not part of any property
struct Quiet {
  std::streambuf* old;
  struct Null : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
  Null null;
  Quiet() { old = std::cerr.rdbuf(&null); }
  ~Quiet() { std::cerr.rdbuf(old); }
};

enum { MK_2D = 0, MK_3D = 1, MK_SIMPLE3 = 2, MK_SIMPLE1 = 3 };

struct MeshSpec {
  int mk = 0, nx = 1, ny = 1, nz = 1, shape = 0, perturb = 0;
  uint64_t seed = 1, numbering = 0;
  bool faces = true, edges = false;
  int sub = 0;  // 0 none 1 sides 2 wedges 3 corners
  int ntiles = 0, halo = 0, gl = 1, part = 0, nranks = 1, rank = 0, pseed = 0;
  bool spherical = false;
  bool bghost = false;  // boundary ghosts behind the exterior faces
  int surf = 0;  // 2D cells in 3D space: 1 in a plane, 2 curved
};

inline void gen_spec(Plan& p, Rng& r, const std::string& pre, bool distributed, bool subentities) {
  auto& c = p.cfg;
  int mk = (int)(r.chance(2, 3) ? r.below(2) : 2 + r.below(2));
  if (distributed) mk = (int)r.below(2);
  c[pre + "mk"] = mk;
  int big = mk == MK_SIMPLE1 ? 12 : mk == MK_2D ? 5 : 3;
  c[pre + "nx"] = r.range(1, big); c[pre + "ny"] = r.range(1, big); c[pre + "nz"] = r.range(1, mk == MK_2D ? 1 : big);
  c[pre + "shape"] = r.below(4);
  c[pre + "perturb"] = r.below(2);
  c[pre + "mseed"] = r.range(1, 1000000);
  c[pre + "num"] = r.chance(1, 2) ? r.range(1, 1000) : 0;
  c[pre + "faces"] = r.chance(7, 8);
  c[pre + "edges"] = r.below(2);
  c[pre + "sub"] = subentities ? r.below(4) : 0;
  c[pre + "gl"] = 1;
  if (distributed && mk <= 1) { c[pre + "nranks"] = r.range(1, 4); c[pre + "rank"] = r.below(4); c[pre + "gl"] = r.range(0, 2); c[pre + "pseed"] = r.below(1000); }
}
// now and then a mesh well beyond the usual size (call after everything else that decides sizes); scale 1..3
inline bool gen_big(Plan& p, Rng& r, const std::string& pre, int scale, long inv = 60) {
  if (!r.chance(1, inv)) return false;
  auto& c = p.cfg; long mk = c[pre + "mk"];
  long a[3] = {1, 1, 1};
  if (mk == MK_SIMPLE1) a[0] = r.range(20, r.chance(1, 6) ? 700 : 100 * scale);
  else {
    int d = mk == MK_2D ? 2 : 3; long lim = (mk == MK_2D ? 70 : 40) * scale * (r.chance(1, 12) ? 3 : 1), most = d == 2 ? 20 : 8;
    for (int i = 0; i < d; ++i) a[i] = r.range(2, most);
    if (r.chance(1, 3)) { a[0] = r.range(15, 30); a[1] = r.range(1, 3); a[2] = 1; }  // a long one
    while (a[0] * a[1] * a[2] > lim) { int i = (int)r.below(d); if (a[i] > 1) --a[i]; }
    if (r.chance(1, 2)) { int i = (int)r.below(d); std::swap(a[0], a[i]); }
  }
  c[pre + "nx"] = a[0]; c[pre + "ny"] = a[1]; c[pre + "nz"] = a[2];
  if (c.count(pre + "ntiles") && c[pre + "ntiles"] && r.chance(1, 2)) c[pre + "ntiles"] = r.range(2, 40);
  return true;
}
// length of a history, now and then a long one
inline int gen_len(Rng& r, int a, int b) { return r.chance(1, 300) ? (int)r.range(4 * b, 14 * b) : r.chance(1, 40) ? (int)r.range(b, 4 * b) : (int)r.range(a, b); }
inline void gen_tiles(Plan& p, Rng& r, const std::string& pre) {
  p.cfg[pre + "ntiles"] = r.chance(1, 10) ? r.range(6, 14) : r.range(1, 5);
  p.cfg[pre + "halo"] = r.chance(1, 25) ? r.range(4, 9) : r.below(4);
  p.cfg[pre + "part"] = r.below(5);
}
inline MeshSpec get_spec(const Plan& p, const std::string& pre) {
  MeshSpec s;
  auto g = [&](const char* k, long d) { return p.get(pre + k, d); };
  s.mk = (int)g("mk", 0) & 3;
  s.nx = std::max(1l, g("nx", 1)); s.ny = std::max(1l, g("ny", 1)); s.nz = std::max(1l, g("nz", 1));
  s.shape = (int)g("shape", 0) & 3; s.perturb = (int)g("perturb", 0) & 1;
  s.seed = (uint64_t)g("mseed", 0); s.numbering = (uint64_t)g("num", 0);
  s.faces = g("faces", 1) != 0; s.edges = g("edges", 0) != 0; s.sub = (int)g("sub", 0) & 3;
  s.ntiles = (int)g("ntiles", 0); s.halo = (int)g("halo", 0); s.gl = (int)g("gl", 1); s.part = (int)g("part", 0) % 5;
  s.nranks = std::max(1l, g("nranks", 1)); s.rank = (int)g("rank", 0) % s.nranks; s.pseed = (int)g("pseed", 0);
  s.bghost = s.mk <= MK_3D && g("bg", 0) && !g("surf", 0);
  s.surf = s.mk == MK_2D ? (int)g("surf", 0) % 3 : 0;
  if (s.surf) s.sub = 0;  // sub-cell entities of surface meshes are not supported
  // the simple framework has no edges in 3D
  if (s.mk == MK_SIMPLE3) { s.edges = false; s.sub = 0; }
  if (s.mk >= 2) { s.nranks = 1; s.rank = 0; }
  return s;
}
inline Jali::Partitioner_type partitioner(int i) {
  static const Jali::Partitioner_type t[] = {Jali::Partitioner_type::INDEX, Jali::Partitioner_type::METIS, Jali::Partitioner_type::BLOCK,
                                             Jali::Partitioner_type::ZOLTAN_GRAPH, Jali::Partitioner_type::ZOLTAN_RCB};
  return t[i % 5];
}

// ------------------------------------------------------------- reference
// The same mesh as the library sees it, in local numbering, from an
// independent source (the generator, or arithmetic for the simple framework).
struct Ref {
  int dim = 2, sdim = 0;  // sdim: 3 for surface meshes
  int space() const { return sdim ? sdim : dim; }
  std::vector<IV> cn, cf, cd, ce, fn, fc, nc, nf, fe, en;  // cell->nodes etc. (local ids)
  IV cghost, nghost, fghost, eghost;                     // 1 = parallel ghost, 2 = boundary ghost
  IV cg, ng, fg, eg;                                     // global ids
  std::vector<X3> X;
  std::vector<IV> nadj;  // cells sharing a node
  int nc_() const { return (int)cn.size(); }
  int count(Entity_kind k) const {
    switch (k) { case Entity_kind::NODE: return (int)X.size(); case Entity_kind::FACE: return (int)fn.size(); case Entity_kind::EDGE: return (int)en.size(); default: return (int)cn.size(); }
  }
  const IV& ghost(Entity_kind k) const {
    switch (k) { case Entity_kind::NODE: return nghost; case Entity_kind::FACE: return fghost; case Entity_kind::EDGE: return eghost; default: return cghost; }
  }
  void finish() {
    nadj.assign(cn.size(), IV());
    for (size_t c = 0; c < cn.size(); ++c) {
      std::set<int> s;
      for (int n : cn[c]) for (int c2 : nc[n]) if (c2 != (int)c) s.insert(c2);
      nadj[c].assign(s.begin(), s.end());
    }
  }
};
inline Ref ref_of(const GMesh& g, const SimMesh& m) {
  Ref r; r.dim = g.dim; r.sdim = g.sdim;
  r.cg = m.c_g; r.ng = m.n_g; r.fg = m.f_g; r.eg = m.e_g;
  auto L = [](const std::map<int, int>& mp, const IV& v) { IV o; for (int x : v) { auto it = mp.find(x); if (it != mp.end()) o.push_back(it->second); } return o; };
  for (int c : m.c_g) { r.cn.push_back(L(m.n_l, g.cell_nodes[c])); r.cf.push_back(L(m.f_l, g.cell_faces[c])); r.cd.push_back(g.cell_dirs[c]); r.ce.push_back(L(m.e_l, g.cell_edges[c])); }
  for (int f : m.f_g) { r.fn.push_back(L(m.n_l, g.face_nodes[f])); r.fc.push_back(L(m.c_l, g.face_cells[f])); r.fe.push_back(L(m.e_l, g.face_edges[f])); }
  for (int e : m.e_g) r.en.push_back({m.n_l.at(g.edge_nodes[e][0]), m.n_l.at(g.edge_nodes[e][1])});
  for (int n : m.n_g) { r.nc.push_back(L(m.c_l, g.node_cells[n])); r.nf.push_back(L(m.f_l, g.node_faces[n])); r.X.push_back(g.X[n]); }
  r.cghost = m.cghost(); r.nghost = m.nghost(); r.fghost = m.fghost(); r.eghost = m.eghost();
  r.finish();
  return r;
}
// simple framework: nx*ny*nz boxes, the numbering is defined by the coordinates
inline Ref ref_simple3(int nx, int ny, int nz, const double lo[3], const double hi[3]) {
  Ref r; r.dim = 3;
  auto N = [&](int i, int j, int k) { return i + j * (nx + 1) + k * (nx + 1) * (ny + 1); };
  auto C = [&](int i, int j, int k) { return i + j * nx + k * nx * ny; };
  int nxy = nx * ny * (nz + 1), nxz = nx * (ny + 1) * nz;
  auto XY = [&](int i, int j, int k) { return i + j * nx + k * nx * ny; };
  auto XZ = [&](int i, int j, int k) { return nxy + i + j * nx + k * nx * (ny + 1); };
  auto YZ = [&](int i, int j, int k) { return nxy + nxz + i + j * (nx + 1) + k * (nx + 1) * ny; };
  int nn = (nx + 1) * (ny + 1) * (nz + 1), ncell = nx * ny * nz, nfc = nxy + nxz + (nx + 1) * ny * nz;
  r.X.resize(nn); r.nc.resize(nn); r.nf.resize(nn); r.cn.resize(ncell); r.cf.resize(ncell); r.cd.resize(ncell); r.ce.resize(ncell); r.fn.resize(nfc); r.fc.resize(nfc); r.fe.resize(nfc);
  for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
    X3 p = {{lo[0] + i * (hi[0] - lo[0]) / nx, lo[1] + j * (hi[1] - lo[1]) / ny, lo[2] + k * (hi[2] - lo[2]) / nz}};
    r.X[N(i, j, k)] = p;
  }
  for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
    if (i < nx && j < ny) r.fn[XY(i, j, k)] = {N(i, j, k), N(i + 1, j, k), N(i + 1, j + 1, k), N(i, j + 1, k)};
    if (i < nx && k < nz) r.fn[XZ(i, j, k)] = {N(i, j, k), N(i + 1, j, k), N(i + 1, j, k + 1), N(i, j, k + 1)};
    if (j < ny && k < nz) r.fn[YZ(i, j, k)] = {N(i, j, k), N(i, j + 1, k), N(i, j + 1, k + 1), N(i, j, k + 1)};
    if (i < nx && j < ny && k < nz) {
      int c = C(i, j, k);
      r.cn[c] = {N(i, j, k), N(i + 1, j, k), N(i + 1, j + 1, k), N(i, j + 1, k), N(i, j, k + 1), N(i + 1, j, k + 1), N(i + 1, j + 1, k + 1), N(i, j + 1, k + 1)};
      // outward direction follows from the right-hand rule of the face nodes
      r.cf[c] = {XZ(i, j, k), YZ(i + 1, j, k), XZ(i, j + 1, k), YZ(i, j, k), XY(i, j, k), XY(i, j, k + 1)};
      r.cd[c] = {1, 1, -1, -1, -1, 1};
    }
  }
  for (int f = 0; f < nfc; ++f) for (int n : r.fn[f]) r.nf[n].push_back(f);
  for (int c = 0; c < ncell; ++c) { for (int n : r.cn[c]) r.nc[n].push_back(c); for (int f : r.cf[c]) r.fc[f].push_back(c); }
  r.cghost.assign(ncell, 0); r.nghost.assign(nn, 0); r.fghost.assign(nfc, 0);
  for (int i = 0; i < ncell; ++i) r.cg.push_back(i);
  for (int i = 0; i < nn; ++i) r.ng.push_back(i);
  for (int i = 0; i < nfc; ++i) r.fg.push_back(i);
  r.finish();
  return r;
}
inline Ref ref_simple1(const std::vector<double>& x) {
  Ref r; r.dim = 1;
  int nn = (int)x.size(), ncell = nn - 1;
  for (int i = 0; i < nn; ++i) { X3 p = {{x[i], 0, 0}}; r.X.push_back(p); r.fn.push_back({i}); r.en.push_back({i, i}); r.fe.push_back({i}); }
  r.nc.resize(nn); r.nf.resize(nn); r.fc.resize(nn);
  for (int c = 0; c < ncell; ++c) {
    r.cn.push_back({c, c + 1}); r.cf.push_back({c, c + 1}); r.cd.push_back({-1, 1}); r.ce.push_back({c, c + 1});
    for (int n : r.cn[c]) { r.nc[n].push_back(c); r.fc[n].push_back(c); }
  }
  for (int i = 0; i < nn; ++i) r.nf[i].push_back(i);
  r.cghost.assign(ncell, 0); r.nghost.assign(nn, 0); r.fghost.assign(nn, 0); r.eghost.assign(nn, 0);
  for (int i = 0; i < ncell; ++i) r.cg.push_back(i);
  for (int i = 0; i < nn; ++i) { r.ng.push_back(i); r.fg.push_back(i); r.eg.push_back(i); }
  r.finish();
  return r;
}

struct Built {
  MeshSpec spec;
  GMesh g; IV part;
  std::shared_ptr<Jali::Mesh> mesh;
  std::shared_ptr<SimMesh> sm;  // mesh, if it is a SimMesh
  Ref ref;
  int space() const { return spec.surf ? 3 : dim(); }
  int dim() const { return spec.mk == MK_2D ? 2 : spec.mk == MK_SIMPLE1 ? 1 : 3; }
};

inline void simple_box(const MeshSpec& s, double lo[3], double hi[3]) {
  Rng r(s.seed * 13 + 1);
  for (int d = 0; d < 3; ++d) { lo[d] = (double)r.range(-3, 3); int n = d == 0 ? s.nx : d == 1 ? s.ny : s.nz; hi[d] = lo[d] + n * 0.25 * r.range(1, 6); if (s.perturb) hi[d] += r.unit(); }
}
inline std::vector<double> simple_line(const MeshSpec& s) {
  Rng r(s.seed * 13 + 1);
  std::vector<double> x; double v = s.spherical ? 0.0 : (double)r.range(-3, 3);
  for (int i = 0; i <= s.nx; ++i) { x.push_back(v); v += s.perturb ? 0.1 + r.unit() : 0.5; }
  return x;
}
inline GMesh gmesh_of(const MeshSpec& s) {
  GOpt o{s.mk == MK_2D ? 2 : 3, s.nx, s.ny, s.nz, s.shape, s.perturb, s.seed};
  GMesh g = make_gmesh(o);
  if (s.surf) {
    Rng r(s.seed * 29 + 3); g.sdim = 3;
    double a[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] = (i == j ? 1 : 0) + 0.6 * (r.unit() - 0.5);
    if (s.surf == 1 && r.chance(1, 3)) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] = i == (j + 1) % 3;  // in a coordinate plane
    double k1 = r.unit(), k2 = r.unit(), t[3]; for (double& v : t) v = (double)r.range(-2, 2);
    for (auto& p : g.X) {
      double q[3] = {p[0], p[1], s.surf == 2 ? 0.3 * std::sin(k1 * p[0]) + 0.2 * k2 * p[0] * p[1] : 0.0};
      for (int i = 0; i < 3; ++i) p[i] = t[i] + a[i][0] * q[0] + a[i][1] * q[1] + a[i][2] * q[2];
    }
  }
  return g;
}
inline SimOpts simopts(const MeshSpec& s) {
  SimOpts o;
  o.faces = s.faces; o.edges = s.edges; o.sides = s.sub >= 1; o.wedges = s.sub >= 2; o.corners = s.sub >= 3;
  o.bghost = s.bghost; o.ntiles = s.ntiles; o.halo = s.halo; o.ghost_layers = s.gl; o.part = partitioner(s.part);
  return o;
}
// Builds the mesh of one rank with the real library. prep may add labels.
inline Built build_mesh(const MeshSpec& s, JaliGeometry::GeometricModelPtr gm = nullptr, const std::function<void(GMesh&)>& prep = nullptr, const GMesh* given = nullptr) {
  Built b; b.spec = s;
  MPI_Comm comm = (MPI_Comm)sim::mpi_world();
  SimOpts o = simopts(s);
  if (s.mk <= MK_3D) {
    { sim::AllocPause ap; b.g = given ? *given : gmesh_of(s); if (prep) prep(b.g); Rng r(s.pseed * 3 + 11); b.part = make_partition(b.g, s.nranks, r); if (s.bghost) { b.g.add_boundary_ghosts(b.part); sim::probe("mesh with boundary ghosts"); } }
    b.sm = std::make_shared<SimMesh>(b.g, b.part, s.rank, o, comm, gm, s.numbering);
    b.mesh = b.sm;
    sim::AllocPause ap;
    b.ref = ref_of(b.g, *b.sm);
  } else if (s.mk == MK_SIMPLE3) {
    double lo[3], hi[3]; simple_box(s, lo, hi);
    b.mesh = std::make_shared<Jali::Mesh_simple>(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], s.nx, s.ny, s.nz, comm, gm, o.faces, o.edges, o.sides, o.wedges, o.corners, o.ntiles, o.halo, 0, false, o.part);
    sim::AllocPause ap;
    b.ref = ref_simple3(s.nx, s.ny, s.nz, lo, hi);
  } else {
    std::vector<double> x = simple_line(s);
    b.mesh = std::make_shared<Jali::Mesh_simple>(x, comm, gm, o.faces, o.edges, o.sides, o.wedges, o.corners, o.ntiles, o.halo, 0, false, o.part,
                                                 s.spherical ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN);
    sim::AllocPause ap;
    b.ref = ref_simple1(x);
  }
  return b;
}

// ------------------------------------------------------------- list helpers
typedef Jali::Entity_ID_List L;
inline std::string str(const std::vector<int>& v) {
  std::string s = "{";
  for (size_t i = 0; i < v.size() && i < 40; ++i) { char b[16]; snprintf(b, 16, "%s%d", i ? "," : "", v[i]); s += b; }
  return s + (v.size() > 40 ? ",...}" : "}");
}
inline std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
inline void hash_list(sim::Hash& h, const std::vector<int>& v) { for (int x : v) h.add((uint64_t)(unsigned)x); h.add(v.size() + 77777); }

inline std::vector<int> entities(const Jali::Mesh& m, Entity_kind k, Entity_type t) {
  using ET = Entity_type;
  if (t == ET::BOUNDARY_GHOST) switch (k) {
    case Entity_kind::SIDE: return m.sides<ET::BOUNDARY_GHOST>();
    case Entity_kind::WEDGE: return m.wedges<ET::BOUNDARY_GHOST>();
    case Entity_kind::CORNER: return m.corners<ET::BOUNDARY_GHOST>();
    case Entity_kind::CELL: return m.cells<ET::BOUNDARY_GHOST>();
    default: return {};  // only cells and their parts
  }
#define SIM_E(fn) (t == ET::PARALLEL_OWNED ? m.fn<ET::PARALLEL_OWNED>() : t == ET::PARALLEL_GHOST ? m.fn<ET::PARALLEL_GHOST>() : m.fn<ET::ALL>())
  switch (k) {
    case Entity_kind::NODE: return SIM_E(nodes);
    case Entity_kind::EDGE: return SIM_E(edges);
    case Entity_kind::FACE: return SIM_E(faces);
    case Entity_kind::SIDE: return SIM_E(sides);
    case Entity_kind::WEDGE: return SIM_E(wedges);
    case Entity_kind::CORNER: return SIM_E(corners);
    default: return SIM_E(cells);
  }
}
inline std::vector<int> entities(const Jali::MeshTile& m, Entity_kind k, Entity_type t) {
  using ET = Entity_type;
  if (t == ET::BOUNDARY_GHOST) return {};
  switch (k) {
    case Entity_kind::NODE: return SIM_E(nodes);
    case Entity_kind::EDGE: return SIM_E(edges);
    case Entity_kind::FACE: return SIM_E(faces);
    case Entity_kind::SIDE: return SIM_E(sides);
    case Entity_kind::WEDGE: return SIM_E(wedges);
    case Entity_kind::CORNER: return SIM_E(corners);
    default: return SIM_E(cells);
  }
}
#undef SIM_E
inline int num_by_template(const Jali::Mesh& m, Entity_kind k, Entity_type t) {
  using ET = Entity_type;
#define SIM_N(fn) (int)(t == ET::PARALLEL_OWNED ? m.fn<ET::PARALLEL_OWNED>() : t == ET::PARALLEL_GHOST ? m.fn<ET::PARALLEL_GHOST>() : m.fn<ET::ALL>())
  switch (k) {
    case Entity_kind::NODE: return SIM_N(num_nodes);
    case Entity_kind::EDGE: return SIM_N(num_edges);
    case Entity_kind::FACE: return SIM_N(num_faces);
    case Entity_kind::SIDE: return SIM_N(num_sides);
    case Entity_kind::WEDGE: return SIM_N(num_wedges);
    case Entity_kind::CORNER: return SIM_N(num_corners);
    default: return SIM_N(num_cells);
  }
}
inline int num_by_template(const Jali::MeshTile& m, Entity_kind k, Entity_type t) {
  using ET = Entity_type;
  switch (k) {
    case Entity_kind::NODE: return SIM_N(num_nodes);
    case Entity_kind::EDGE: return SIM_N(num_edges);
    case Entity_kind::FACE: return SIM_N(num_faces);
    case Entity_kind::SIDE: return SIM_N(num_sides);
    case Entity_kind::WEDGE: return SIM_N(num_wedges);
    case Entity_kind::CORNER: return SIM_N(num_corners);
    default: return SIM_N(num_cells);
  }
}
#undef SIM_N
static const Entity_kind ALLKINDS[7] = {Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER, Entity_kind::CELL};
static const char* const KINDNAME[7] = {"node", "edge", "face", "side", "wedge", "corner", "cell"};
static const Entity_type PTYPES[3] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL};
static const char* const PTNAME[3] = {"owned", "ghost", "all"};

// A Jali error carries its message; normalise what we need of it.
template <class F> bool throws_jali(F f, std::string* what = nullptr) {
  try { f(); } catch (const Errors::Message& e) { if (what) *what = e.what(); return true; }
  return false;
}
}  // namespace simm
#endif
