// C01: collective mesh creation agrees on every rank and never hangs.
#include "meshcfg.hpp"
#include "Mesh_MSTK.hh"
#include "MeshFactory.hh"
#include "BoxRegion.hh"
using namespace simm;
using namespace sim;
#ifndef SIM_VARIANT
#define SIM_VARIANT 0
#endif
#ifdef HAVE_MSTK_MESH
static const bool have_backend = true;
#else
static const bool have_backend = false;
#endif

static const char* const names[] = {"create-3d-box", "create-2d-box", "create-1d-nodes", "create-1d-interval", "create-from-file", "extract"};
enum { BAD_NONE = 0, BAD_COUNT, BAD_EXTENT, BAD_MODEL, BAD_FRAMEWORK, BAD_FILE, NBAD };
static const char* const badname[] = {"nothing", "count", "extent", "geometric model", "framework", "file"};

static void generate(Plan& p, Rng& r) {
  p.cfg["variant"] = SIM_VARIANT;
  p.cfg["nranks"] = r.chance(1, 5) ? 1 : r.chance(1, 20) ? r.range(5, 8) : r.range(2, 4);
  p.cfg["heap"] = r.below(5);
  bool faults = r.chance(3, 4);
  int n = (int)r.range(1, 7);
  long all = (1l << p.cfg["nranks"]) - 1;
  for (int i = 0; i < n; ++i) {
    Op o; o.kind = (int)r.below(NFORMS);
    if (p.cfg["nranks"] > 1 && (o.kind == FORM_LINE || o.kind == FORM_INTERVAL) && r.chance(1, 2)) o.kind = (int)r.below(2);
    o.a[0] = r.below(100000);                                             // shape of the request
    o.a[1] = faults && r.chance(1, 3) ? r.range(1, NBAD - 1) : BAD_NONE;  // what is wrong with it
    o.a[2] = r.chance(1, 3) ? all : r.range(1, all);                      // on which ranks
    o.a[3] = r.below(100000);                                             // options
    o.a[4] = r.chance(1, 6);                                              // the simple framework
    o.a[5] = r.below(3);                                                  // geometric model: none, empty, with regions
    p.ops.push_back(o);
    if (faults && r.chance(1, 3)) {
      Fault f; f.where = i; f.k = r.chance(1, 4) ? all : r.range(1, all);
      if (p.cfg["nranks"] == 1 && r.chance(1, 2)) { f.kind = F_ALLOC; f.k = r.below(60); f.n = 1; }
      else { f.kind = F_BACKEND; f.n = r.below(400); }
      p.faults.push_back(f);
    }
  }
  for (int i = 0, m = faults ? (int)r.below(4) : 0; i < m; ++i) {
    Fault f; f.kind = F_STALL; f.where = (int)r.below(p.cfg["nranks"]); f.k = r.below(12); f.n = r.range(5, 400); p.faults.push_back(f);
  }
}

struct Req { int form; double b[6]; long n[3]; std::vector<double> x; std::string file; int bad; long badmask; bool simple; int gmk; };
static int dim_of(const Req& q) { return q.form == FORM_BOX3 ? 3 : q.form == FORM_BOX2 ? 2 : q.form == FORM_FILE ? (q.file.find("2d") != std::string::npos ? 2 : 3) : 1; }
static Req request(const Op& o) {
  Req q; Rng r(o.a[0] * 3 + 1);
  q.form = o.kind % NFORMS;
  for (int d = 0; d < 3; ++d) q.n[d] = r.range(1, 3);
  int D = q.form == FORM_BOX3 ? 3 : q.form == FORM_BOX2 ? 2 : 1;
  for (int d = 0; d < D; ++d) { q.b[d] = (double)r.range(-3, 3); q.b[d + D] = q.b[d] + 0.5 * r.range(1, 5); }
  for (int i = 0; i <= q.n[0]; ++i) q.x.push_back(q.b[0] + (q.b[1] - q.b[0]) * i / q.n[0]);
  q.file = r.chance(1, 2) ? "mesh2d.exo" : "mesh3d.exo";
  q.bad = (int)o.a[1] % NBAD; q.badmask = o.a[2]; q.simple = o.a[4] != 0; q.gmk = (int)o.a[5] % 3;
  return q;
}
struct Out { int got = 0; std::string what; std::shared_ptr<Jali::Mesh> mesh; };  // 1 mesh, 2 exception, 3 null

static void run(const Plan& p) {
  Quiet quiet;
  int nr = (int)std::max(1l, std::min(8l, p.get("nranks", 1)));
  mpi_set_world(nr);
  size_t nops = p.ops.size();
  std::vector<std::vector<Out> > out(nops, std::vector<Out>(nr));
  std::vector<std::vector<long> > coll(nops, std::vector<long>(nr, 0));
  std::vector<int> cur(nr, 0);       // operation the rank is in
  std::vector<std::vector<int> > hit(nops, std::vector<int>(nr, 0));  // a fault hit this rank in this operation
  std::vector<std::shared_ptr<Jali::Mesh> > base(nr);                 // the mesh to extract from
  // geometric models, one set per rank
  std::vector<std::vector<std::unique_ptr<JaliGeometry::GeometricModel> > > gms(nr);
  std::vector<std::unique_ptr<JaliGeometry::Region> > regions;
  for (int r = 0; r < nr; ++r)
    for (unsigned d = 2; d <= 3; ++d) for (int k = 0; k < 2; ++k) {
      gms[r].emplace_back(new JaliGeometry::GeometricModel(d));
      if (k) {
        JaliGeometry::Point a(d), b(d); if (d == 2) { a.set(-9, -9); b.set(9, 9); } else { a.set(-9, -9, -9); b.set(9, 9, 9); }
        regions.emplace_back(new JaliGeometry::BoxRegion("everything", (unsigned)regions.size() + 1, a, b));
        gms[r].back()->Add_Region(regions.back().get());
      }
    }
  backend().enter = [&](const BackendCall&) {
    int r = mpi_rank();
    for (auto& f : p.faults) if (f.kind == F_BACKEND && f.where == cur[r] && (f.k >> r & 1)) {
      int mode = (int)(f.n % 8);
      if (mode == 6) { alloc_arm(f.n / 8, 1); return; }
      if (mode == 5) { sleep_ticks(1 + f.n); return; }   // a slow rank, not a failure
      if (mode == 3 || mode == 4 || mode == 7) return;   // fails at the end
      hit[cur[r]][r] = 1; fault_fired(F_BACKEND);
      trace("rank %d: the backend fails at once (%d)", r, mode);
      if (mode == 0) { Errors::Message m("backend failed"); throw m; }
      if (mode == 1) throw std::bad_alloc();
      throw std::runtime_error("backend failed");
    }
  };
  backend().leave = [&](const BackendCall&) {
    int r = mpi_rank();
    for (auto& f : p.faults) if (f.kind == F_BACKEND && f.where == cur[r] && (f.k >> r & 1)) {
      int mode = (int)(f.n % 8);
      if (mode == 6) { alloc_disarm(); return; }
      if (mode != 3 && mode != 4 && mode != 7) return;
      hit[cur[r]][r] = 1; fault_fired(F_BACKEND);
      trace("rank %d: the backend fails after building the mesh (%d)", r, mode);
      if (mode == 3) { Errors::Message m("backend failed late"); throw m; }
      if (mode == 4) throw std::bad_alloc();
      throw Exceptions::Jali_exception();
    }
  };
  std::vector<std::unique_ptr<Jali::MeshFactory> > fac(nr);
  if (have_backend) {  // something to extract from
    for (int r = 0; r < nr; ++r) { GOpt g{2 + (int)(p.seed % 2), 2, 2, 2, 0, 0, 5}; base[r] = std::make_shared<SimMesh>(make_gmesh(g), IV(), 0, SimOpts(), (MPI_Comm)mpi_world(), nullptr); }
  }
  int ndisagree = 0, nfail = 0, nok = 0;
  auto body = [&](int r) {
    fac[r].reset(new Jali::MeshFactory((MPI_Comm)mpi_world()));
    for (size_t i = 0; i < nops; ++i) {
      cur[r] = (int)i;
      Req q = request(p.ops[i]);
      Rng ro(p.ops[i].a[3] * 7 + 3);
      bool bad = (q.badmask >> r & 1) != 0;
      Jali::MeshFactory& f = *fac[r];
      f.reset_options();
      bool simple = q.simple || ((q.form == FORM_LINE || q.form == FORM_INTERVAL) && ro.chance(3, 4));
      bool expect_ok = true, may = false;
      if (bad && q.bad == BAD_FRAMEWORK) simple = !simple;
      f.framework(simple ? Jali::Simple : Jali::MSTK);
      if (ro.chance(1, 3)) f.included_entities(ALLKINDS[ro.below(7)]);
      f.num_tiles((int)ro.below(3)); f.num_ghost_layers_distmesh((int)ro.below(3)); f.num_ghost_layers_tile((int)ro.below(2));
      f.partitioner(partitioner((int)ro.below(5)));
      int D = dim_of(q), gd = D;
      if (bad && q.bad == BAD_MODEL) gd = D == 2 ? 3 : 2;
      int gmk = bad && q.bad == BAD_MODEL ? std::max(1, q.gmk) : q.gmk;
      if (q.form == FORM_LINE || q.form == FORM_INTERVAL) { if (!(bad && q.bad == BAD_MODEL)) gmk = 0; }  // there are no 1D models
      if (q.form == FORM_EXTRACT) gmk = 0;
      if (gmk) { f.geometric_model(gms[r][(gd - 2) * 2 + (gmk - 1)].get()); if (gd != D) expect_ok = false; }
      if (bad && q.bad == BAD_COUNT) { q.n[ro.below(D)] = -ro.below(3); q.x.resize(ro.below(2)); if (q.form <= FORM_INTERVAL) expect_ok = false; }
      if (bad && q.bad == BAD_EXTENT && q.form <= FORM_INTERVAL) {
        int d = (int)ro.below(D); q.b[d + D] = q.b[d] - 0.5 * ro.below(3); expect_ok = false;
        if (!q.x.empty()) { q.x.back() = q.x.front() - 0.5 * ro.below(3); }
      }
      if (bad && q.bad == BAD_FILE && q.form == FORM_FILE) { q.file = "missing" + q.file; expect_ok = false; }
      if (simple) {
        if (nr > 1 || (q.form != FORM_BOX3 && q.form != FORM_LINE && q.form != FORM_INTERVAL)) expect_ok = false;
        if (q.form == FORM_BOX3) for (auto k : f.included_entities()) if (k != Entity_kind::NODE && k != Entity_kind::FACE && k != Entity_kind::CELL) may = true;
      } else if (!have_backend || q.form == FORM_LINE || q.form == FORM_INTERVAL) expect_ok = false;
      if (q.form == FORM_EXTRACT && !base[r]) { barrier(100, nr); barrier(101, nr); continue; }
      trace("rank %d: [%zu] %s %s%s", r, i, names[q.form], simple ? "Simple" : "MSTK", bad ? (std::string(" bad ") + badname[q.bad]).c_str() : "");
      Out& o = out[i][r];
      std::unique_ptr<AllocFault> af;
      if (nr == 1) af.reset(new AllocFault(p, (int)i));
      try {
        std::shared_ptr<Jali::Mesh> m;
        switch (q.form) {
          case FORM_BOX3: m = f(q.b[0], q.b[1], q.b[2], q.b[3], q.b[4], q.b[5], (int)q.n[0], (int)q.n[1], (int)q.n[2]); break;
          case FORM_BOX2: m = f(q.b[0], q.b[1], q.b[2], q.b[3], (int)q.n[0], (int)q.n[1]); break;
          case FORM_LINE: m = f(q.x); break;
          case FORM_INTERVAL: m = f(q.b[0], q.b[1], (int)q.n[0]); break;
          case FORM_FILE: m = f(q.file); break;
          default: m = f(base[r], std::vector<std::string>(1, "everything"), Entity_kind::CELL, false, false);
        }
        AllocPause ap;
        o.got = m ? 1 : 3; o.mesh = m;
      } catch (const std::exception& e) { AllocPause ap; o.got = 2; o.what = e.what(); }
      catch (...) { AllocPause ap; o.got = 2; o.what = "(unknown exception)"; }
      if (af) { af->end(); if (af->fired) hit[i][r] = 1; }
      if (alloc_disarm()) hit[i][r] = 1;
      for (auto& ft : p.faults) if (ft.kind == F_BACKEND && ft.where == (int)i && ft.n % 8 == 6 && (ft.k >> r & 1) && o.got == 2 && o.what.find("bad_alloc") != std::string::npos) hit[i][r] = 1;
      coll[i][r] = mpi_collectives(r);
      trace("rank %d: [%zu] -> %s %s", r, i, o.got == 1 ? "mesh" : o.got == 2 ? "error" : "NULL", o.what.c_str());
      hit[i][r] |= (expect_ok ? 0 : 2) | (may ? 4 : 0);
      barrier(100, nr);
      if (r == 0) {
        bool anybad = false, anymay = false, ok0 = out[i][0].got == 1, mixed = false; int nh = 0;
        for (int k = 0; k < nr; ++k) { nh += (hit[i][k] & 3) != 0; anymay |= (hit[i][k] & 4) != 0; }
        anybad = nh > 0; mixed = nh > 0 && nh < nr;
        for (int k = 0; k < nr; ++k) {
          if (out[i][k].got == 3) failf("null-mesh", "rank %d got a null mesh instead of an error from \"%s\"", k, names[q.form]);
          if ((out[i][k].got == 1) != ok0) failf("disagreement", "\"%s\": rank 0 got %s, rank %d got %s", names[q.form], ok0 ? "a mesh" : "an error", k, ok0 ? "an error" : "a mesh");
          if (coll[i][k] != coll[i][0]) failf("collective-count", "\"%s\": rank 0 entered %ld collectives, rank %d entered %ld", names[q.form], coll[i][0], k, coll[i][k]);
        }
        if (ok0 && anybad) failf("error-lost", "\"%s\" succeeded although it was bound to fail on %d of %d ranks", names[q.form], nh, nr);
        if (!ok0 && !anybad && !anymay) failf("spurious-error", "\"%s\" failed although nothing was wrong: %s", names[q.form], out[i][0].what.c_str());
        ndisagree += mixed; nfail += !ok0; nok += ok0;
        Hash h; h.add(ok0); h.add(q.form); h.add(nh);
        if (ok0) {
          long cells = 0;
          for (int k = 0; k < nr; ++k) cells += out[i][k].mesh->num_cells<Entity_type::PARALLEL_OWNED>();
          long want = q.form == FORM_BOX3 ? q.n[0] * q.n[1] * q.n[2] : q.form == FORM_BOX2 ? q.n[0] * q.n[1] : q.form == FORM_FILE ? (D == 3 ? 8 : 4) : q.form == FORM_EXTRACT ? cells : q.n[0];
          if (cells != want) failf("wrong-mesh", "\"%s\": the ranks own %ld cells, %ld were asked for", names[q.form], cells, want);
          h.add(cells);
        }
        sim::log(h.h); state_hash(h.h);
        if (mixed) probe("failure on some ranks only");
        if (ok0 && nfail) probe("success after a failure");
      }
      barrier(101, nr);
    }
    out.size();
  };
  std::vector<std::function<void()> > bodies;
  for (int r = 0; r < nr; ++r) bodies.push_back([&body, r]() { body(r); });
  SchedCfg sc; sc.mean_gap = 2;
  run_tasks(p, sc, bodies);
  if (ndisagree || (nok && nfail) || nr > 1) note_nontrivial();
  out.clear(); fac.clear(); base.clear();
  backend().enter = nullptr; backend().leave = nullptr;
}

namespace sim {
extern const Workload workload = {
    "C01", names, NFORMS, generate, run,
    "one case: 1..4 simulated ranks issue 1..7 requests of every form to their mesh factories under a seeded schedule; non-trivial: more than one rank, or both failing and succeeding requests",
#ifdef HAVE_MSTK_MESH
    "MeshFactory (with its MSTK branches), Mesh_simple, Mesh, MeshTile, MeshSet, GeometricModel",
    "MPI (simulated ranks as tasks of one process), the MSTK framework (stub behind its constructor signatures)",
#else
    "MeshFactory (without an external framework, as the repository builds here), Mesh_simple, Mesh, MeshTile, MeshSet, GeometricModel",
    "MPI (simulated ranks as tasks of one process)",
#endif
    "all ranks issue the same form of request; arguments, options, models and failures differ per rank|a failing backend constructor fails without leaving other ranks inside its own collectives|with several ranks, memory runs out only while the framework constructs the mesh",
    true};
}
