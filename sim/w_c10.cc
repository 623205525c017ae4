// C10: region-defined sets hold exactly the entities their regions define.
#include "geomref.hpp"
#include "MeshSet.hh"
#include "GeometricModel.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "LogicalRegion.hh"
#include "LabeledSetRegion.hh"
using namespace simm;
using namespace sim;
namespace JG = JaliGeometry;
typedef std::shared_ptr<Jali::MeshSet> SetPtr;

enum { O_INIT = 0, O_INITMAP, O_BUILD, O_FROM, O_FIND, O_UNKNOWN, O_MOVE, O_ADDREGION, O_GEOM, O_VALID, O_REGIONS, NOPS };
static const char* const names[] = {"init-sets", "init-sets-with-kinds", "build-set", "find-or-build-set", "find-sets", "unknown-set", "move-nodes", "add-regions", "query-geometry", "valid-names", "query-regions"};
enum { R_BOX = 0, R_PLANE, R_POINT, R_POLY, R_LABEL, R_LOGIC, NRT };

static void generate(Plan& p, Rng& r) {
  gen_spec(p, r, "", r.chance(3, 5), true); p.cfg["bg"] = r.chance(1, 8);
  if (p.cfg["mk"] == MK_SIMPLE1 && r.chance(2, 3)) p.cfg["mk"] = r.below(2);
  if (p.cfg["mk"] <= 1) { p.cfg["nranks"] = r.chance(1, 3) ? 1 : r.range(2, 3); p.cfg["rank"] = r.below(3); p.cfg["gl"] = r.range(0, 2); p.cfg["pseed"] = r.below(1000); }
  p.cfg["faces"] = r.chance(9, 10);
  p.cfg["nreg"] = r.range(1, 9);
  p.cfg["nreg0"] = r.range(0, 9);
  p.cfg["rseed"] = r.range(1, 1000000);
  p.cfg["copy"] = r.below(3);
  p.cfg["gmcopy"] = r.chance(2, 3) ? 0 : r.range(1, 2);
  bool big = gen_big(p, r, "", 2);
  p.cfg["heap"] = r.below(5);
  int n = big ? (int)r.range(2, 10) : gen_len(r, 2, 12);
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = r.chance(1, 3) ? (int)r.below(3) : (int)r.below(NOPS);
    for (long& a : o.a) a = r.below(100000);
    p.ops.push_back(o);
    if (o.kind <= O_FROM && r.chance(1, 4)) { Fault f; f.kind = F_ALLOC; f.where = i; f.k = r.chance(1, 2) ? r.below(20) : r.below(300); f.n = 1; p.faults.push_back(f); }
  }
}

struct Reg {
  int type; std::string name; bool temp = false;
  V3 a, b; std::vector<V3> poly;             // box corners, plane point/normal, point, polygon
  Entity_kind lk = Entity_kind::CELL; std::string label, estr;
  JG::Bool_type op = JG::Bool_type::UNION; std::vector<int> comp;
  std::shared_ptr<JG::Region> r; int dim = 0;
};
typedef std::vector<signed char> Tri;          // 0 out, 1 in, 2 undecided (within the stated tolerances)
struct World {
  Built b; int dim; std::vector<X3> X; GeoRef g; std::vector<Reg> regs; JG::GeometricModel* gm; int ngm = 0;
  std::map<std::pair<std::string, int>, Tri> reg;  // registered sets
  double h;
};
static Point pt(int dim, V3 v) { Point p(dim); if (dim == 1) p.set(v.x); else if (dim == 2) p.set(v.x, v.y); else p.set(v.x, v.y, v.z); return p; }
static double at(V3 v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }

// 0/1/2 for a value against a tolerance band (in if <= lo, out if >= hi)
static int band(double d, double lo, double hi) { return d <= lo ? 1 : d >= hi ? 0 : 2; }
static int tri_and(int a, int b) { return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : 2; }
static int tri_or(int a, int b) { return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : 2; }
static int tri_not(int a) { return a == 2 ? 2 : 1 - a; }

static int in_box(const World& w, const Reg& r, V3 p) {
  int t = 1;
  for (int d = 0; d < w.dim; ++d) { double lo = std::min(at(r.a, d), at(r.b, d)), hi = std::max(at(r.a, d), at(r.b, d)), x = at(p, d); t = tri_and(t, band(std::max(lo - x, x - hi), 1e-9, 1e-7)); }
  return t;
}
static int on_plane(const World& w, const Reg& r, V3 p) { return band(std::fabs(dot(r.b, p - r.a)), 3e-13, 5e-12); }
static double seg_dist(V3 p, V3 a, V3 b, double* t) { V3 d = b - a; double s = dot(p - a, d) / dot(d, d); *t = s; s = s < 0 ? 0 : s > 1 ? 1 : s; return len(p - (a + s * d)); }
static int on_poly(const World& w, const Reg& r, V3 p) {
  if (w.dim == 2) {
    V3 d = r.poly[1] - r.poly[0]; double L1 = len(d), off = std::fabs(d.y * (p.x - r.poly[0].x) - d.x * (p.y - r.poly[0].y)) / L1, s;
    seg_dist(p, r.poly[0], r.poly[1], &s);
    int t = band(off, 3e-13, 5e-12);
    if (std::fabs(s) * L1 < 1e-7 || std::fabs(1 - s) * L1 < 1e-7) return t == 0 ? 0 : 2;
    return tri_and(t, s > 0 && s < 1);
  }
  V3 n = cross(r.poly[2] - r.poly[1], r.poly[0] - r.poly[1]); n = (1 / len(n)) * n;
  int t = band(std::fabs(dot(n, p - r.poly[0])), 3e-13, 5e-12);
  if (t == 0) return 0;
  // projection along n; convex or not: winding number in the plane
  double ang = 0, dmin = 1e30; bool vert = false;
  size_t m = r.poly.size();
  for (size_t i = 0; i < m; ++i) {
    V3 a = r.poly[i] - p, b = r.poly[(i + 1) % m] - p;
    double s, d = seg_dist(p, r.poly[i], r.poly[(i + 1) % m], &s);
    dmin = std::min(dmin, d); if (len(a) < 1e-6) vert = true;
    ang += std::atan2(dot(n, cross(a, b)), dot(a, b));
  }
  if (vert || (dmin > 1e-10 && dmin < 1e-7)) return 2;
  int in = dmin <= 1e-10 ? 1 : std::fabs(ang) > 3 ? 1 : 0;
  return tri_and(t, in);
}
static int in_cell(const World& w, int c, V3 p) {
  const Ref& r = w.b.ref;
  if (w.dim == 1) { double a = w.X[r.cn[c][0]][0], b = w.X[r.cn[c][1]][0]; if (std::fabs(p.x - a) < 1e-9 || std::fabs(p.x - b) < 1e-9) return 2; return p.x > a && p.x < b; }
  if (w.dim == 2) {
    double ang = 0, dmin = 1e30; size_t m = r.cn[c].size();
    for (size_t i = 0; i < m; ++i) {
      V3 A = v3(w.X[r.cn[c][i]]), B = v3(w.X[r.cn[c][(i + 1) % m]]); double s; A.z = B.z = 0;
      dmin = std::min(dmin, seg_dist(p, A, B, &s)); V3 a = A - p, b = B - p; ang += std::atan2(a.x * b.y - a.y * b.x, dot(a, b));
    }
    return dmin < 1e-8 ? 2 : std::fabs(ang) > 3;
  }
  double omega = 0, dmin = 1e30; bool all = true, closed = true, exact = true;
  // with small dyadic coordinates every volume below (and in the library) is computed without rounding, and a cell includes its boundary
  auto dy = [&](V3 q) { for (int d = 0; d < 3; ++d) { double z = at(q, d) * 64; if (std::fabs(z) > 4096 || z != std::floor(z)) exact = false; } };
  dy(p); for (int q : r.cn[c]) dy(v3(w.X[q]));
  for (size_t i = 0; i < r.cf[c].size(); ++i) {
    const IV& fn = r.fn[r.cf[c][i]]; V3 fc; for (int q : fn) fc = fc + v3(w.X[q]); fc = (1.0 / fn.size()) * fc;
    for (size_t j = 0; j < fn.size(); ++j) {
      V3 a = v3(w.X[fn[j]]) - p, b = v3(w.X[fn[(j + 1) % fn.size()]]) - p, e = fc - p;
      double t = r.cd[c][i] * dot(cross(a, b), e), la = len(a), lb = len(b), le = len(e);
      V3 nn = cross(b - a, e - a); dmin = std::min(dmin, len(nn) > 0 ? std::fabs(dot(nn, a)) / len(nn) : 1e30);
      if (t <= 0) all = false;
      if (t < 0) closed = false;
      omega += 2 * r.cd[c][i] * std::atan2(dot(cross(a, b), e), la * lb * le + dot(a, b) * le + dot(b, e) * la + dot(e, a) * lb);
    }
  }
  if (exact && dmin < 1e-8 && w.b.spec.mk >= 2) { probe("point-on-boundary"); return closed; }
  if (std::fabs(omega) < 1) return dmin < 1e-8 ? 2 : 0;  // outside
  return all && dmin > 1e-8 ? 1 : 2;                     // inside, and sees all faces from inside
}
static int count(const World& w, Entity_kind k) { return spec_has(w.b.spec, k) ? w.b.ref.count(k) : 0; }

// does the library support sets of this kind on this region?
static bool supported(const World& w, int ri, Entity_kind k) {
  const Reg& r = w.regs[ri];
  if (r.type == R_LABEL) return r.lk == k;
  if (r.type == R_LOGIC) { for (int c : r.comp) if (c >= w.ngm || !supported(w, c, k)) return false; return true; }
  if (k == Entity_kind::CELL) return r.type != R_POLY;
  if (k == Entity_kind::FACE) return r.type != R_POINT;
  return true;
}
static Tri eval_prim(const World& w, const Reg& r, Entity_kind k) {
  int n = count(w, k); Tri t(n, 0);
  const Ref& f = w.b.ref;
  for (int e = 0; e < n; ++e) {
    if (r.type == R_LABEL) {
      if (w.b.spec.mk >= 2) continue;
      auto it = w.b.g.labels.find(r.label); if (it == w.b.g.labels.end()) continue;
      auto jt = it->second.find((int)k); if (jt == it->second.end()) continue;
      int gid = k == Entity_kind::CELL ? f.cg[e] : k == Entity_kind::FACE ? f.fg[e] : f.ng[e];
      t[e] = jt->second.count(gid) != 0;
    } else if (k == Entity_kind::NODE) {
      V3 p = v3(w.X[e]); if (w.dim < 3) p.z = 0; if (w.dim < 2) p.y = 0;
      if (r.type == R_BOX) t[e] = in_box(w, r, p);
      else if (r.type == R_PLANE) t[e] = on_plane(w, r, p);
      else if (r.type == R_POLY) t[e] = on_poly(w, r, p);
      else { V3 d = p - r.a; t[e] = band(std::max(std::fabs(d.x), std::max(std::fabs(d.y), std::fabs(d.z))), 1e-13, 1e-11); }
    } else if (k == Entity_kind::FACE) {
      if (r.type == R_BOX) {
        int all = 1, side = 0;
        for (int q : f.fn[e]) all = tri_and(all, in_box(w, r, v3(w.X[q])));
        for (int d = 0; d < w.dim; ++d) for (int s = 0; s < 2; ++s) {
          bool out = true; for (int q : f.fn[e]) { double x = w.X[q][d], lo = std::min(at(r.a, d), at(r.b, d)), hi = std::max(at(r.a, d), at(r.b, d)); if (s ? x < hi + 1e-7 : x > lo - 1e-7) out = false; }
          if (out) side = 1;
        }
        t[e] = all == 1 ? 1 : side ? 0 : w.dim < 3 || w.g.fplanar[e] ? in_box(w, r, w.g.fcen[e]) : 2;
      } else { int all = 1; for (int q : f.fn[e]) { V3 p = v3(w.X[q]); all = tri_and(all, r.type == R_PLANE ? on_plane(w, r, p) : on_poly(w, r, p)); } t[e] = all; }
    } else {
      if (r.type == R_BOX) t[e] = in_box(w, r, w.g.ccen[e]);
      else if (r.type == R_POINT) t[e] = in_cell(w, e, r.a);
      else if (w.dim == 2) { int all = 1; for (int q : f.cn[e]) all = tri_and(all, on_plane(w, r, v3(w.X[q]))); t[e] = all; }
    }
  }
  return t;
}
// model of "the set of kind k on region ri", with the sets already there
static Tri eval(World& w, int ri, Entity_kind k, bool reg) {
  const Reg& r = w.regs[ri];
  Tri t;
  if (r.type == R_LOGIC) {
    std::vector<Tri> cs;
    for (int c : r.comp) { auto it = w.reg.find({w.regs[c].name, (int)k}); cs.push_back(it != w.reg.end() ? it->second : eval(w, c, k, reg)); }
    t = cs[0];
    for (size_t e = 0; e < t.size(); ++e) {
      for (size_t i = 1; i < cs.size(); ++i) {
        int v = cs[i][e];
        if (r.op == JG::Bool_type::INTERSECT) t[e] = tri_and(t[e], v);
        else if (r.op == JG::Bool_type::SUBTRACT) t[e] = r.comp[i] == r.comp[0] ? 0 : tri_and(t[e], tri_not(v));
        else t[e] = tri_or(t[e], v);
      }
      if (r.op == JG::Bool_type::COMPLEMENT) t[e] = tri_not(t[e]);
    }
    if (r.temp) return t;
  } else t = eval_prim(w, r, k);
  if (reg) w.reg[{r.name, (int)k}] = t;
  return t;
}
static int kindidx(Entity_kind k) { for (int i = 0; i < 7; ++i) if (ALLKINDS[i] == k) return i; return 6; }
static void check_set(World& w, const Jali::MeshSet& s, const Tri& t, const std::string& name, Entity_kind k, const char* when) {
  const char* kn = KINDNAME[kindidx(k)];
  if (s.name() != name || s.kind() != k) failf("set-identity", "%s: asked for %s set \"%s\", got %s set \"%s\"", when, kn, name.c_str(), KINDNAME[kindidx(s.kind())], s.name().c_str());
  const std::vector<int>&o = s.entities<Entity_type::PARALLEL_OWNED>(), &g = s.entities<Entity_type::PARALLEL_GHOST>(), &a = s.entities<Entity_type::ALL>();
  std::vector<int> cat(o); cat.insert(cat.end(), g.begin(), g.end());
  if (a != cat) failf("total-list", "%s: %s set \"%s\" has total list %s, owned and ghost lists %s", when, kn, name.c_str(), str(a).c_str(), str(cat).c_str());
  std::vector<char> seen(t.size(), 0);
  for (int q = 0; q < 2; ++q) for (int e : q ? g : o) {
    if (e < 0 || e >= (int)t.size()) failf("set-members", "%s: %s set \"%s\" contains %d, there are %zu", when, kn, name.c_str(), e, t.size());
    if (seen[e]++) failf("set-duplicates", "%s: %s set \"%s\" contains %d twice", when, kn, name.c_str(), e);
    if ((q == 1) != (w.b.ref.ghost(k)[e] != 0)) failf("set-parallel-type", "%s: %s set \"%s\" lists %d as %s", when, kn, name.c_str(), e, q ? "ghost" : "owned");
    if (w.b.ref.ghost(k)[e] == 2) failf("set-members", "%s: %s set \"%s\" contains the boundary ghost %d", when, kn, name.c_str(), e);
    if (t[e] == 0) failf("set-members", "%s: %s set \"%s\" contains %d, which is not in the region", when, kn, name.c_str(), e);
  }
  long und = 0, in = 0;
  for (size_t e = 0; e < t.size(); ++e) { if (t[e] == 1 && !seen[e] && w.b.ref.ghost(k)[e] != 2) failf("set-members", "%s: %s set \"%s\" lacks %zu, which is in the region", when, kn, name.c_str(), e); und += t[e] == 2; in += t[e] == 1; }
  if (in) probe("set with members");
  if (in && !g.empty()) probe("set with ghost members");
  if (und) probe("entity within tolerance of a region boundary");
  Hash h; h.add_s(name); h.add((uint64_t)k); hash_list(h, sorted(o)); hash_list(h, sorted(g)); sim::log(h.h); state_hash(h.h);
}
// the mesh holds exactly the sets of the model, each under its name once
static void check_all(World& w, const char* when, bool deep) {
  const Jali::Mesh& m = *w.b.mesh;
  std::set<std::pair<std::string, int> > have;
  for (auto& s : m.sets()) {
    std::pair<std::string, int> key(s->name(), (int)s->kind());
    if (!have.insert(key).second) failf("duplicate-set", "%s: %s set \"%s\" exists twice", when, KINDNAME[kindidx(s->kind())], key.first.c_str());
    auto it = w.reg.find(key);
    if (it == w.reg.end()) failf("extra-set", "%s: the mesh has a %s set \"%s\" which nobody asked for", when, KINDNAME[kindidx(s->kind())], key.first.c_str());
    if (deep) check_set(w, *s, it->second, key.first, s->kind(), when);
  }
  for (auto& r : w.reg) if (!have.count(r.first)) failf("missing-set", "%s: set \"%s\" of kind %d is missing", when, r.first.first.c_str(), r.first.second);
}
// after a failed request: sets completed before the failure may exist
static void resync(World& w) {
  for (auto& s : w.b.mesh->sets()) {
    std::pair<std::string, int> key(s->name(), (int)s->kind());
    if (w.reg.count(key)) continue;
    int ri = -1; for (int i = 0; i < w.ngm; ++i) if (w.regs[i].name == key.first) ri = i;
    if (ri < 0 || w.regs[ri].temp && w.regs[ri].type == R_LOGIC || !supported(w, ri, s->kind())) failf("extra-set", "a failed request left a set \"%s\" of kind %d behind", key.first.c_str(), key.second);
    w.reg[key] = eval(w, ri, s->kind(), false);
  }
}
static void kinds_of(const World& w, int ri, std::vector<Entity_kind>& out, bool* tied) {
  const Reg& r = w.regs[ri]; out.clear(); *tied = false;
  bool F = spec_has(w.b.spec, Entity_kind::FACE);
  int gd = (int)w.gm->dimension();
  if (r.type == R_LABEL) { out = {r.lk}; *tied = true; return; }
  if (r.type == R_LOGIC) {
    std::set<int> s{(int)Entity_kind::CELL, (int)Entity_kind::FACE, (int)Entity_kind::NODE};
    for (int c : r.comp) {
      if (c >= w.ngm) continue;
      std::vector<Entity_kind> k1; bool t1; kinds_of(w, c, k1, &t1);
      if (t1) { out = k1; *tied = true; return; }
      std::set<int> s2; for (auto k : k1) if (s.count((int)k)) s2.insert((int)k);
      s.swap(s2);
    }
    for (auto k : {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE}) if (s.count((int)k)) out.push_back(k);
    return;
  }
  if (r.dim == gd) out.push_back(Entity_kind::CELL);
  if (F && r.dim >= gd - 1) out.push_back(Entity_kind::FACE);
  out.push_back(Entity_kind::NODE);
}

static Reg make_region(const World& w, int idx, Rng& r) {
  Reg g; g.name = tricky("r", idx);
  const char* longname = "a region with a name which does not fit into a short string";
  if (r.chance(1, 4)) g.name += longname;
  g.temp = r.chance(1, 8);
  JG::LifeCycle_type lc = g.temp ? JG::LifeCycle_type::TEMPORARY : JG::LifeCycle_type::PERMANENT;
  int dim = w.dim, n = (int)w.X.size();
  auto node = [&]() { V3 v = v3(w.X[r.below(n)]); if (dim < 3) v.z = 0; if (dim < 2) v.y = 0; return v; };
  auto anyp = [&]() { V3 v = node(); if (r.chance(2, 3)) { V3 u = node(); double s = r.unit(); v = s * v + (1 - s) * u; if (r.chance(1, 2)) { V3 z = node(); double q = r.unit(); v = q * v + (1 - q) * z; } } return v; };
  g.type = idx >= 1 && r.chance(2, 5) ? R_LOGIC : (int)r.below(R_LOGIC);
  if (g.type == R_POLY && dim == 1) g.type = R_BOX;
  switch (g.type) {
    case R_BOX: {
      g.a = r.chance(1, 2) ? node() : anyp(); g.b = r.chance(1, 2) ? node() : anyp();
      if (r.chance(1, 5)) { V3 z = g.b - g.a; g.a = g.a - 0.5 * z; g.b = g.b + 0.5 * z; }
      g.dim = dim; for (int d = 0; d < dim; ++d) if (at(g.a, d) == at(g.b, d)) --g.dim;
      g.r = std::make_shared<JG::BoxRegion>(g.name, idx + 1, pt(dim, g.a), pt(dim, g.b), lc); break;
    }
    case R_PLANE: {
      g.a = node();
      if (r.chance(2, 3) || dim == 1) { int d = (int)r.below(dim); double s = r.chance(1, 2) ? 1 : -1; if (d == 0) g.b.x = s; else if (d == 1) g.b.y = s; else g.b.z = s; }
      else if (dim == 2) { V3 t = node() - g.a; if (len(t) < 1e-9) t.x = 1; t = (1 / len(t)) * t; g.b.x = t.y; g.b.y = -t.x; }
      else { V3 t = cross(node() - g.a, node() - g.a); if (len(t) < 1e-9) t.z = 1; g.b = (1 / len(t)) * t; }
      g.dim = dim - 1;
      g.r = std::make_shared<JG::PlaneRegion>(g.name, idx + 1, pt(dim, g.a), pt(dim, g.b), lc); break;
    }
    case R_POINT: g.a = anyp(); g.dim = 0; g.r = std::make_shared<JG::PointRegion>(g.name, idx + 1, pt(dim, g.a), lc); break;
    case R_POLY: {
      g.dim = dim - 1;
      if (dim == 2) {
        V3 a = node(), b = node(); for (int k = 0; k < 8 && len(b - a) < 1e-6; ++k) b = node(); if (len(b - a) < 1e-6) b.x += 1;
        if (r.chance(1, 2)) { V3 d = b - a; a = a - 0.25 * d; b = b + 0.25 * d; }
        g.poly = {a, b};
      } else {  // axis-aligned polygon through a node, either orientation
        int d = (int)r.below(3); V3 c = node(), o = node();
        double lo = -r.unit() * 2 - 0.01, hi = r.unit() * 2 + 0.01; (void)o;
        int np = (int)r.range(3, 6); double ph = r.unit() * 6.28, rad = std::max(hi - lo, 0.2);
        V3 ctr = anyp();
        for (int i = 0; i < np; ++i) {
          double th = ph + 6.283185307179586 * i / np, u = rad * std::cos(th), v = rad * std::sin(th); V3 q;
          if (d == 0) { q.x = c.x; q.y = ctr.y + u; q.z = ctr.z + v; } else if (d == 1) { q.x = ctr.x + u; q.y = c.y; q.z = ctr.z + v; } else { q.x = ctr.x + u; q.y = ctr.y + v; q.z = c.z; }
          g.poly.push_back(q);
        }
        if (r.chance(1, 3)) {  // rectangle with exact mesh coordinates: boundary inclusion
          V3 p = node(), q = node(); g.poly.clear();
          if (d == 0) { p.x = q.x = c.x; if (p.y == q.y) q.y += 1; if (p.z == q.z) q.z += 1; g.poly = {p, {c.x, q.y, p.z}, q, {c.x, p.y, q.z}}; }
          else if (d == 1) { p.y = q.y = c.y; if (p.x == q.x) q.x += 1; if (p.z == q.z) q.z += 1; g.poly = {p, {q.x, c.y, p.z}, q, {p.x, c.y, q.z}}; }
          else { p.z = q.z = c.z; if (p.x == q.x) q.x += 1; if (p.y == q.y) q.y += 1; g.poly = {p, {q.x, p.y, c.z}, q, {p.x, q.y, c.z}}; }
        }
        if (r.chance(1, 2)) std::reverse(g.poly.begin(), g.poly.end());
      }
      std::vector<Point> pp; for (auto& v : g.poly) pp.push_back(pt(dim, v));
      g.r = std::make_shared<JG::PolygonRegion>(g.name, idx + 1, (unsigned)pp.size(), pp, lc); break;
    }
    case R_LABEL: {
      int k = (int)r.below(spec_has(w.b.spec, Entity_kind::FACE) ? 3 : 2);
      g.lk = k == 0 ? Entity_kind::CELL : k == 1 ? Entity_kind::NODE : Entity_kind::FACE;
      g.label = tricky("L", r.below(4)); g.dim = 3;
      const char* nm = k == 0 ? "CELL" : k == 1 ? "NODE" : "FACE"; g.estr = r.chance(1, 2) ? nm : std::string("Entity_kind::") + nm;
      g.r = std::make_shared<JG::LabeledSetRegion>(g.name, idx + 1, g.estr, "file", "Exodus II", g.label, lc); break;
    }
    default: {
      static const JG::Bool_type ops[] = {JG::Bool_type::UNION, JG::Bool_type::INTERSECT, JG::Bool_type::SUBTRACT, JG::Bool_type::COMPLEMENT};
      static const char* const on[] = {"Union", "Intersect", "Subtract", "Complement"};
      int o = (int)r.below(4), nc = (int)r.range(1, r.chance(1, 3) ? 5 : 3); g.op = ops[o]; g.dim = 3;
      std::vector<std::string> cn;
      for (int i = 0; i < nc; ++i) { g.comp.push_back((int)r.below(idx)); cn.push_back(w.regs[g.comp.back()].name); }
      if (r.chance(1, 2)) g.r = std::make_shared<JG::LogicalRegion>(g.name, idx + 1, g.op, cn, lc); else g.r = std::make_shared<JG::LogicalRegion>(g.name, idx + 1, std::string(on[o]), cn, lc);
    }
  }
  return g;
}
static std::shared_ptr<JG::Region> copy_region(const Reg& g) {
  switch (g.type) {
    case R_BOX: return std::make_shared<JG::BoxRegion>(*static_cast<JG::BoxRegion*>(g.r.get()));
    case R_PLANE: return std::make_shared<JG::PlaneRegion>(*static_cast<JG::PlaneRegion*>(g.r.get()));
    case R_POINT: return std::make_shared<JG::PointRegion>(*static_cast<JG::PointRegion*>(g.r.get()));
    case R_POLY: return std::make_shared<JG::PolygonRegion>(*static_cast<JG::PolygonRegion*>(g.r.get()));
    case R_LABEL: return std::make_shared<JG::LabeledSetRegion>(*static_cast<JG::LabeledSetRegion*>(g.r.get()));
    default: return std::make_shared<JG::LogicalRegion>(*static_cast<JG::LogicalRegion*>(g.r.get()));
  }
}
// the regions and the model answer what they were made from
static void check_regions(World& w, Rng& g) {
  static const JG::Region_type RT[] = {JG::Region_type::BOX, JG::Region_type::PLANE, JG::Region_type::POINT, JG::Region_type::POLYGON, JG::Region_type::LABELEDSET, JG::Region_type::LOGICAL};
  const JG::GeometricModel& gm = *w.gm;
  if (gm.Num_Regions() != w.ngm) failf("model-regions", "the geometric model has %d regions, %d were added", gm.Num_Regions(), w.ngm);
  auto same = [&](const Point& q, V3 v) { for (int d = 0; d < w.dim; ++d) if (q[d] != at(v, d)) return false; return (int)q.dim() == w.dim; };
  for (int ri = 0; ri < w.ngm; ++ri) {
    const Reg& r = w.regs[ri]; const JG::Region* x = gm.Region_i(ri); const char* n = r.name.c_str();
    if (x->name() != r.name || x->id() != (unsigned)ri + 1 || x->type() != RT[r.type] || x->dimension() != (unsigned)r.dim || (x->lifecycle() == JG::LifeCycle_type::TEMPORARY) != r.temp) failf("region-data", "region \"%s\" answers name \"%s\", id %u, type %d, dimension %u", n, x->name().c_str(), x->id(), (int)x->type(), x->dimension());
    if (gm.FindRegion(r.name) != x) failf("find-region", "region \"%s\" is not found by name", n);
    if (gm.FindRegion(ri + 1) != x) failf("find-region", "region \"%s\" is not found by its id %d", n, ri + 1);
    int (*in)(const World&, const Reg&, V3) = nullptr;
    if (r.type == R_BOX) {
      const JG::BoxRegion* b = static_cast<const JG::BoxRegion*>(x); Point lo, hi; b->corners(&lo, &hi); int nd = -7, wd = 0; bool dg = b->is_degenerate(&nd);
      for (int d = 0; d < w.dim; ++d) wd += at(r.a, d) == at(r.b, d);
      if (!same(b->point0(), r.a) || !same(b->point1(), r.b) || !same(lo, r.a) || !same(hi, r.b)) failf("region-data", "box \"%s\" answers other corners", n);
      if (dg != (wd > 0) || nd != wd) failf("region-data", "box \"%s\" with %d zero extents answers %d", n, wd, nd);
      in = in_box;
    } else if (r.type == R_PLANE) {
      const JG::PlaneRegion* b = static_cast<const JG::PlaneRegion*>(x);
      if (!same(b->point(), r.a)) failf("region-data", "plane \"%s\" answers another point", n);
      for (int d = 0; d < w.dim; ++d) if (std::fabs(b->normal()[d] - at(r.b, d)) > 1e-12) failf("region-data", "plane \"%s\" answers another normal", n);
      in = on_plane;
    } else if (r.type == R_POINT) { if (!same(static_cast<const JG::PointRegion*>(x)->point(), r.a)) failf("region-data", "point \"%s\" answers another point", n); }
    else if (r.type == R_POLY) {
      const JG::PolygonRegion* b = static_cast<const JG::PolygonRegion*>(x); bool ok = b->num_points() == r.poly.size() && b->points().size() == r.poly.size();
      for (size_t i = 0; ok && i < r.poly.size(); ++i) ok = same(b->points()[i], r.poly[i]);
      if (!ok) failf("region-data", "polygon \"%s\" answers other points", n);
      V3 nn; for (int d = 0; d < w.dim; ++d) (d == 0 ? nn.x : d == 1 ? nn.y : nn.z) = b->normal()[d];
      if (std::fabs(len(nn) - 1) > 1e-9) failf("region-data", "the normal of polygon \"%s\" has length %.17g", n, len(nn));
      for (auto& q : r.poly) if (std::fabs(dot(nn, q - r.poly[0])) > 1e-9 * (1 + len(q))) failf("region-data", "the normal of polygon \"%s\" is not normal to it", n);
      in = on_poly;
    } else if (r.type == R_LABEL) { const JG::LabeledSetRegion* b = static_cast<const JG::LabeledSetRegion*>(x); if (b->label() != r.label || b->entity_str() != r.estr) failf("region-data", "labelled set \"%s\" answers label \"%s\", kind \"%s\"", n, b->label().c_str(), b->entity_str().c_str()); }
    else {
      const JG::LogicalRegion* b = static_cast<const JG::LogicalRegion*>(x); const std::vector<std::string>& c = b->component_regions(); bool ok = b->operation() == r.op && c.size() == r.comp.size();
      for (size_t i = 0; ok && i < c.size(); ++i) ok = c[i] == w.regs[r.comp[i]].name;
      if (!ok) failf("region-data", "logical region \"%s\" answers other operands", n);
    }
    // points of the region itself, and anywhere
    for (int k = 0; k < 6; ++k) {
      V3 q = v3(w.X[g.below((long)w.X.size())]), u = v3(w.X[g.below((long)w.X.size())]); double f = g.chance(1, 3) ? 0 : g.unit(); q = (1 - f) * q + f * u;
      if (r.type == R_BOX && k < 3) { q = r.a; for (int d = 0; d < w.dim; ++d) { double t = g.chance(1, 3) ? g.below(2) : g.unit(); (d == 0 ? q.x : d == 1 ? q.y : q.z) += t * (at(r.b, d) - at(r.a, d)); } }
      if (r.type == R_POLY && k < 3) { q = V3(); double s = 0; for (auto& v : r.poly) { double t = g.unit() + 1e-3; q = q + t * v; s += t; } q = (1 / s) * q; }
      if (w.dim < 3) q.z = 0; if (w.dim < 2) q.y = 0;
      int want = 2; if (r.type == R_POINT) { V3 d = q - r.a; want = band(std::max(std::fabs(d.x), std::max(std::fabs(d.y), std::fabs(d.z))), 1e-13, 1e-11); } else if (in) want = in(w, r, q); else continue;
      bool got = x->inside(pt(w.dim, q));
      if (want != 2 && got != (want == 1)) failf("region-inside", "region \"%s\" says (%.17g %.17g %.17g) is %s", n, q.x, q.y, q.z, got ? "inside" : "outside");
    }
  }
  if (gm.FindRegion("no such region") || gm.FindRegion(w.ngm + 1) || gm.FindRegion(-1)) failf("find-region", "a region is found which does not exist");
  JG::GeometricModel cp(gm); if (cp.dimension() != gm.dimension() || cp.Num_Regions() != gm.Num_Regions()) failf("model-copy", "a copy of the model differs");
  for (int i = 0; i < w.ngm; ++i) if (cp.Region_i(i) != gm.Region_i(i)) failf("model-copy", "a copy of the model has other regions");
  probe("regions queried");
}
static void refresh(World& w) { w.g = georef(w.b.ref, w.X, false); }

static void run(const Plan& p) {
  World w;
  MeshSpec s = get_spec(p, "");
  w.dim = s.mk == MK_2D ? 2 : s.mk == MK_SIMPLE1 ? 1 : 3;
  JG::GeometricModel gm0(w.dim == 3 ? 3 : 2);
  w.b = build_mesh(s, &gm0, [&](GMesh& g) {
    Rng r(s.seed * 7 + 3);
    for (int l = 0; l < 3; ++l) for (Entity_kind k : {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE}) {
      std::set<int> m; int den = (int)r.range(1, 4); for (int e = 0; e < g.count(k); ++e) if (r.chance(1, den)) m.insert(e);
      if (r.chance(3, 4)) g.labels[tricky("L", l)][(int)k] = m;
    }
  });
  if (w.b.ref.nc_() == 0) return;
  Jali::Mesh& m = *w.b.mesh;
  w.gm = &gm0;
  if (m.geometric_model() != &gm0) fail("geometric-model", "the mesh does not have the geometric model it was given");
  for (int i = 0; i < (int)w.b.ref.X.size(); ++i) { X3 x = {{0, 0, 0}}; Point q; m.node_get_coordinates(i, &q); for (int d = 0; d < w.dim; ++d) x[d] = q[d]; w.X.push_back(x); }
  w.h = 1e30; for (auto& c : w.b.ref.cn) for (size_t i = 0; i < c.size(); ++i) for (size_t j = 0; j < i; ++j) w.h = std::min(w.h, len(v3(w.X[c[i]]) - v3(w.X[c[j]])));
  refresh(w);
  { Rng r(p.get("rseed", 1)); int n = (int)p.get("nreg", 1); for (int i = 0; i < n; ++i) w.regs.push_back(make_region(w, i, r)); }
  std::vector<std::shared_ptr<JG::Region> > kept;
  auto add_regions = [&](int upto) {
    while (w.ngm < upto && w.ngm < (int)w.regs.size()) {
      std::shared_ptr<JG::Region> r = p.get("copy", 0) ? copy_region(w.regs[w.ngm]) : w.regs[w.ngm].r;
      kept.push_back(r);
      // regions of higher dimension than the model are refused
      if (r->dimension() != (unsigned)w.regs[w.ngm].dim) failf("region-dimension", "region \"%s\" has dimension %u, expected %d", r->name().c_str(), r->dimension(), w.regs[w.ngm].dim);
      ++w.ngm;
      if (p.get("gmcopy", 0) == 1) { JG::GeometricModel t(gm0); t.Add_Region(r.get()); gm0 = t; }
      else if (p.get("gmcopy", 0) == 2) { std::vector<JG::RegionPtr> l; for (auto& q : kept) l.push_back(q.get()); gm0 = JG::GeometricModel(gm0.dimension(), l); }
      else gm0.Add_Region(r.get());
    }
  };
  add_regions((int)std::max(1l, p.get("nreg0", 1)));
  long built = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i]; Rng g(o.a[0] + 5);
    trace("[%zu] %s", i, names[o.kind]);
    static const Entity_kind K3[] = {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE};
    switch (o.kind) {
      case O_INIT: case O_INITMAP: {
        std::map<std::string, std::vector<Entity_kind> > mp;
        if (o.kind == O_INITMAP) for (int ri = 0; ri < w.ngm; ++ri) if (g.chance(1, 2)) { std::vector<Entity_kind> v; for (auto k : K3) if (g.chance(1, 2) && (k != Entity_kind::FACE || spec_has(s, k))) v.push_back(k); if (g.chance(1, 6) && !v.empty()) v.push_back(v[0]); mp[w.regs[ri].name] = v; }
        // what is asked for, in order, and whether it is possible
        std::vector<std::pair<int, Entity_kind> > want; bool possible = true;
        for (int ri = 0; ri < w.ngm; ++ri) {
          std::vector<Entity_kind> ks; bool tied; kinds_of(w, ri, ks, &tied);
          if (!tied && mp.count(w.regs[ri].name)) ks = mp[w.regs[ri].name];
          for (auto k : ks) { want.push_back({ri, k}); if (!w.reg.count({w.regs[ri].name, (int)k}) && !supported(w, ri, k)) possible = false; }
        }
        bool threw = false, oom = false; std::string msg;
        AllocFault af(p, (int)i);
        try { if (o.kind == O_INIT) m.init_sets_from_geometric_model(); else m.init_sets_from_geometric_model(mp); }
        catch (const Errors::Message& e) { AllocPause ap; threw = true; msg = e.what(); }
        catch (const std::bad_alloc&) { oom = true; }
        af.end();
        if (af.fired) { if (!oom && !threw) fail("failure-swallowed", "allocation failure while initialising sets was not reported"); probe("set initialisation failed"); resync(w); check_all(w, "after a failed initialisation", true); break; }
        if (oom) fail("spurious-error", "initialising sets ran out of memory");
        if (threw) { if (possible) failf("spurious-error", "initialising sets failed: %s", msg.c_str()); probe("impossible request"); resync(w); check_all(w, "after an impossible initialisation", true); break; }
        if (!possible) fail("impossible-request", "an impossible initialisation request was not reported");
        for (auto& q : want) if (!w.reg.count({w.regs[q.first].name, (int)q.second})) { eval(w, q.first, q.second, true); ++built; }
        check_all(w, names[o.kind], true);
        break;
      }
      case O_BUILD: case O_FROM: {
        if (!w.ngm) break;
        int ri = (int)(o.a[1] % w.ngm); Entity_kind k = K3[o.a[2] % 3]; const Reg& r = w.regs[ri];
        if (k == Entity_kind::FACE && !spec_has(s, k)) break;
        bool present = w.reg.count({r.name, (int)k}) != 0;
        if (o.kind == O_BUILD && present) break;  // build always builds another one
        bool possible = supported(w, ri, k), threw = false, oom = false; std::string msg; SetPtr got;
        if (o.kind == O_FROM && !m.valid_region_name(r.name, k)) {
          SetPtr f = m.find_meshset_from_region(r.name, k, true);
          if (f) failf("invalid-name", "a set was found or made on \"%s\", which is not valid for this kind", r.name.c_str());
          check_all(w, names[o.kind], false); break;
        }
        AllocFault af(p, (int)i);
        try { got = o.kind == O_BUILD ? m.build_set_from_region(r.name, k, o.a[3] % 2) : m.find_meshset_from_region(r.name, k, true); }
        catch (const Errors::Message& e) { AllocPause ap; threw = true; msg = e.what(); }
        catch (const std::bad_alloc&) { oom = true; }
        af.end();
        if (af.fired) { if (!oom && !threw) fail("failure-swallowed", "allocation failure while building a set was not reported"); probe("building a set failed"); resync(w); check_all(w, "after a failed build", true); break; }
        if (oom) fail("spurious-error", "building a set ran out of memory");
        if (threw) { if (possible) failf("spurious-error", "building set \"%s\" failed: %s", r.name.c_str(), msg.c_str()); probe("impossible request"); resync(w); check_all(w, "after an impossible request", true); break; }
        if (!possible && !present) fail("impossible-request", "an impossible set was made");
        if (!got) failf("null-set", "no set on region \"%s\"", r.name.c_str());
        Tri t = present ? w.reg[{r.name, (int)k}] : eval(w, ri, k, true);
        check_set(w, *got, t, r.name, k, names[o.kind]); ++built;
        check_all(w, names[o.kind], false);
        if (!(r.temp && r.type == R_LOGIC) && m.find_meshset(r.name, k) != got) failf("find-set", "set \"%s\" is not the one the mesh finds", r.name.c_str());
        break;
      }
      case O_FIND: {
        const Jali::Mesh& cm = m; L out{3};
        for (int ri = 0; ri < (int)w.regs.size(); ++ri) for (auto k : K3) {
          auto it = w.reg.find({w.regs[ri].name, (int)k});
          SetPtr f = cm.find_meshset(w.regs[ri].name, k);
          if ((it != w.reg.end()) != (f != nullptr)) failf("find-set", "%s set \"%s\" is %sfound", KINDNAME[kindidx(k)], w.regs[ri].name.c_str(), f ? "" : "not ");
          if (f) {
            check_set(w, *f, it->second, w.regs[ri].name, k, "find");
            if (cm.valid_region_name(w.regs[ri].name, k) && cm.find_meshset_from_region(w.regs[ri].name, k) != f) failf("find-set", "set \"%s\" is found by name but not by region", w.regs[ri].name.c_str());
          }
          for (int q = 0; q < 3; ++q) {
            cm.get_set_entities(w.regs[ri].name, k, PTYPES[q], &out);
            const std::vector<int> want = !f ? std::vector<int>() : q == 0 ? f->entities<Entity_type::PARALLEL_OWNED>() : q == 1 ? f->entities<Entity_type::PARALLEL_GHOST>() : f->entities<Entity_type::ALL>();
            if (out != want || cm.get_set_size(w.regs[ri].name, k, PTYPES[q]) != want.size() || m.get_set_size(w.regs[ri].name, k, PTYPES[q]) != want.size()) failf("set-by-name", "%s entities of set \"%s\" by name are %s, expected %s", PTNAME[q], w.regs[ri].name.c_str(), str(out).c_str(), str(want).c_str());
          }
        }
        check_all(w, names[o.kind], false); break;
      }
      case O_UNKNOWN: {
        Entity_kind k = K3[o.a[2] % 3]; std::string n = o.a[3] % 2 ? "no such region" : (w.ngm < (int)w.regs.size() ? w.regs[w.ngm].name : "r99");
        if (!throws_jali([&] { m.build_set_from_region(n, k, false); })) failf("unknown-set", "building the unknown set \"%s\" is no error", n.c_str());
        if (m.find_meshset(n, k) || m.find_meshset_from_region(n, k, true) || m.valid_region_name(n, k) || m.get_set_size(n, k, Entity_type::ALL)) failf("unknown-set", "unknown set \"%s\" is known", n.c_str());
        probe("unknown set"); check_all(w, names[o.kind], true); break;
      }
      case O_MOVE: {
        bool all = g.chance(1, 4); V3 sh; if (all) { sh.x = g.unit() - 0.5; sh.y = g.unit() - 0.5; sh.z = g.unit() - 0.5; }
        for (int n = 0; n < (int)w.X.size(); ++n) if (all || g.chance(1, 3)) {
          X3 x = w.X[n]; int c = w.b.ref.ng[n]; Rng gg(o.a[1] * 7919 + c + 1);
          for (int d = 0; d < w.dim; ++d) x[d] += all ? at(sh, d) : (gg.unit() - 0.5) * 0.1 * w.h;
          double y[3] = {x[0], x[1], x[2]}; m.node_set_coordinates(n, y); w.X[n] = x;
        }
        if (o.a[2] % 2) { m.update_geometric_quantities(); probe("nodes moved"); } else probe("nodes moved, geometry not updated");
        refresh(w); check_all(w, names[o.kind], true); break;
      }
      case O_ADDREGION: add_regions(w.ngm + (int)(o.a[1] % 3)); check_all(w, names[o.kind], false); break;
      case O_REGIONS: check_regions(w, g); break;
      case O_GEOM: { for (int k = 0; k < 10; ++k) { int c = (int)g.below(w.b.ref.nc_()); m.cell_volume(c, true); m.cell_centroid(c, g.chance(1, 2)); L l; m.cell_get_node_adj_cells(c, Entity_type::ALL, &l); } break; }
      default:
        for (int ri = 0; ri < w.ngm; ++ri) if (!m.valid_region_name(w.regs[ri].name, Entity_kind::NODE) && w.regs[ri].type != R_LABEL) failf("valid-name", "\"%s\" is no valid name for a node set", w.regs[ri].name.c_str());
          else if (w.regs[ri].type == R_LABEL && !m.valid_region_name(w.regs[ri].name, w.regs[ri].lk)) failf("valid-name", "\"%s\" is no valid name for a set of its own kind", w.regs[ri].name.c_str());
        for (int ri = 0; ri < w.ngm; ++ri) {  // cells: full boxes and points; faces: boxes and planes one dimension below the mesh or more
          const Reg& r = w.regs[ri]; int nd = 0; for (int d = 0; d < w.dim; ++d) if (std::fabs(at(r.a, d) - at(r.b, d)) > 1e-6) ++nd;
          bool vc = (r.type == R_BOX && nd == w.dim) || r.type == R_POINT, vf = (r.type == R_BOX && nd >= w.dim - 1) || r.type == R_PLANE || r.type == R_POLY;
          if (vc && !m.valid_region_name(r.name, Entity_kind::CELL)) failf("valid-name", "\"%s\" is no valid name for a cell set", r.name.c_str());
          if (vf && !m.valid_region_name(r.name, Entity_kind::FACE)) failf("valid-name", "\"%s\" is no valid name for a face set", r.name.c_str());
        }
    }
  }
  // finally every region's sets, in a seeded order of requests
  {
    std::vector<int> ord; for (int ri = 0; ri < w.ngm; ++ri) ord.push_back(ri);
    Rng g(p.get("rseed", 1) + 99); g.shuffle(ord);
    for (int ri : ord) for (auto k : {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE}) {
      const Reg& r = w.regs[ri];
      if ((k == Entity_kind::FACE && !spec_has(s, k)) || !supported(w, ri, k) || w.reg.count({r.name, (int)k})) continue;
      SetPtr f = m.build_set_from_region(r.name, k, g.chance(1, 2));
      if (!f) failf("null-set", "no set on region \"%s\"", r.name.c_str());
      check_set(w, *f, eval(w, ri, k, true), r.name, k, "at the end"); ++built;
    }
    check_all(w, "at the end", true);
  }
  if (built > 1) note_nontrivial();
  if (s.nranks > 1 && s.gl > 0) probe("mesh with parallel ghosts");
}

namespace sim {
extern const Workload workload = {
    "C10", names, NOPS, generate, run,
    "one case = one simulated run: a mesh (one rank of a distributed mesh, or the built-in framework) with a seeded geometric model (boxes, planes, points, polygons, labelled sets, nested logical regions, permanent and temporary, regions added later), then a history of set initialisations, single builds, look-ups, unknown names and node motion with failing allocations; every set compared with an independent evaluation of the region; non-trivial when at least two sets were built",
    "Mesh (set initialisation, building from regions, registry), MeshSet operations, geometry regions and GeometricModel, Mesh_simple",
    "mesh framework for polygonal/polyhedral and distributed meshes and its labelled sets (SimMesh), MPI communicator",
    "entities within the library's stated tolerances of a region boundary may be in or out, except points exactly on cell boundaries of the built-in mesh, which are in|cells are star-shaped around points asked for|region names are unique and logical regions are not cyclic",
    true};
}
