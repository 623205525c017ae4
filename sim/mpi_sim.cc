// Simulated MPI: the ranks are simulator tasks of one process.  Defines the
// MPI C symbols that the library uses (and a few more), so no real MPI is
// linked.  Does not include mpi.h: handles are addresses.
#include "sim.hpp"
#include <cstring>
#include <deque>

#define HANDLE(n) extern "C" { char n[1024] __attribute__((aligned(16))); }
HANDLE(ompi_mpi_comm_world) HANDLE(ompi_mpi_comm_self) HANDLE(ompi_mpi_comm_null) HANDLE(ompi_mpi_group_null)
HANDLE(ompi_mpi_int) HANDLE(ompi_mpi_double) HANDLE(ompi_mpi_float) HANDLE(ompi_mpi_char) HANDLE(ompi_mpi_byte) HANDLE(ompi_mpi_unsigned)
HANDLE(ompi_mpi_long) HANDLE(ompi_mpi_unsigned_long) HANDLE(ompi_mpi_c_bool) HANDLE(ompi_mpi_cxx_bool) HANDLE(ompi_mpi_long_long_int)
HANDLE(ompi_mpi_unsigned_char) HANDLE(ompi_mpi_signed_char) HANDLE(ompi_mpi_short) HANDLE(ompi_mpi_datatype_null) HANDLE(ompi_mpi_int32_t) HANDLE(ompi_mpi_int64_t) HANDLE(ompi_mpi_uint64_t)
HANDLE(ompi_mpi_op_sum) HANDLE(ompi_mpi_op_max) HANDLE(ompi_mpi_op_min) HANDLE(ompi_mpi_op_prod) HANDLE(ompi_mpi_op_land) HANDLE(ompi_mpi_op_lor)
HANDLE(ompi_mpi_op_band) HANDLE(ompi_mpi_op_bor) HANDLE(ompi_mpi_op_null)

namespace sim {
struct Inst { std::string kind; int count = 0; void* dt = 0; void* op = 0; int root = 0; int arrived = 0; std::vector<std::string> data; bool done = false; std::string result; int left = 0; };
struct Comm { std::vector<long> seq; std::deque<Inst> inst; };
static std::map<void*, Comm>* g_comms = nullptr;
static std::vector<void*>* g_dups = nullptr;
static int g_world = 1;
static long g_ncoll[8];
static const Plan* g_plan = nullptr;
void mpi_reset(const Plan& p) {
  AllocPause ap;
  delete g_comms; g_comms = nullptr;
  if (g_dups) { for (void* d : *g_dups) delete[] (char*)d; delete g_dups; g_dups = nullptr; }
  g_world = 1; memset(g_ncoll, 0, sizeof g_ncoll); g_plan = &p;
}
void mpi_set_world(int n) { g_world = n; }
long mpi_collectives(int r) { return g_ncoll[r]; }
int mpi_rank() { return self() >= 0 && g_world > 1 ? self() : 0; }
int mpi_size() { return g_world; }
void* mpi_world() { return (void*)ompi_mpi_comm_world; }

static int size_of(void* comm) { return comm == (void*)ompi_mpi_comm_self ? 1 : g_world; }
static int dtsize(void* dt) {
  if (dt == (void*)ompi_mpi_int || dt == (void*)ompi_mpi_unsigned || dt == (void*)ompi_mpi_float || dt == (void*)ompi_mpi_int32_t) return 4;
  if (dt == (void*)ompi_mpi_double || dt == (void*)ompi_mpi_long || dt == (void*)ompi_mpi_unsigned_long || dt == (void*)ompi_mpi_long_long_int || dt == (void*)ompi_mpi_int64_t || dt == (void*)ompi_mpi_uint64_t) return 8;
  if (dt == (void*)ompi_mpi_short) return 2;
  return 1;
}
template <class T> static void red1(T* a, const T* b, int n, void* op) {
  for (int i = 0; i < n; ++i) {
    if (op == (void*)ompi_mpi_op_sum) a[i] = (T)(a[i] + b[i]);
    else if (op == (void*)ompi_mpi_op_max) a[i] = a[i] > b[i] ? a[i] : b[i];
    else if (op == (void*)ompi_mpi_op_min) a[i] = a[i] < b[i] ? a[i] : b[i];
    else if (op == (void*)ompi_mpi_op_prod) a[i] = (T)(a[i] * b[i]);
    else if (op == (void*)ompi_mpi_op_land) a[i] = (T)(a[i] && b[i]);
    else if (op == (void*)ompi_mpi_op_lor) a[i] = (T)(a[i] || b[i]);
    else if (op == (void*)ompi_mpi_op_band) a[i] = (T)((long)a[i] & (long)b[i]);
    else if (op == (void*)ompi_mpi_op_bor) a[i] = (T)((long)a[i] | (long)b[i]);
    else failf("simulator", "unsupported reduction");
  }
}
static void reduce(std::string& acc, const std::string& b, int n, void* dt, void* op) {
  char* a = &acc[0]; const char* c = b.data();
  if (dt == (void*)ompi_mpi_int || dt == (void*)ompi_mpi_int32_t) red1((int*)a, (const int*)c, n, op);
  else if (dt == (void*)ompi_mpi_unsigned) red1((unsigned*)a, (const unsigned*)c, n, op);
  else if (dt == (void*)ompi_mpi_double) red1((double*)a, (const double*)c, n, op);
  else if (dt == (void*)ompi_mpi_float) red1((float*)a, (const float*)c, n, op);
  else if (dtsize(dt) == 8) red1((long*)a, (const long*)c, n, op);
  else red1((char*)a, (const char*)c, n, op);
}
// The collective engine: every rank of comm must enter the same collective.
static const std::string& collective(void* comm, const char* kind, const std::string& mine, int count, void* dt, void* op, int root) {
  int n = size_of(comm), me = comm == (void*)ompi_mpi_comm_self ? 0 : mpi_rank();
  g_ncoll[me]++;
  log((uint64_t)(0xC0110 + me));
  if (n == 1) {
    Inst in; in.data.assign(1, mine);
    return mine;
  }
  yield();
  if (g_plan) for (auto& f : g_plan->faults)
    if (f.kind == F_STALL && f.where == me && f.k + 1 == g_ncoll[me]) { fault_fired(F_STALL); trace("rank %d stalls for %ld ticks", me, f.n); sleep_ticks(f.n); }
  Inst* in;
  {
    AllocPause ap;
    if (!g_comms) g_comms = new std::map<void*, Comm>();
    Comm& c = (*g_comms)[comm];
    if (c.seq.empty()) c.seq.assign(n, 0);
    long s = c.seq[me]++;
    while ((long)c.inst.size() <= s) c.inst.push_back(Inst());
    in = &c.inst[s];
    if (in->arrived == 0) { in->kind = kind; in->count = count; in->dt = dt; in->op = op; in->root = root; in->data.assign(n, std::string()); }
    else if (in->kind != kind || in->count != count || in->dt != dt || in->op != op || in->root != root)
      failf("collective-mismatch", "rank %d entered %s(count %d) while another rank is in %s(count %d)", me, kind, count, in->kind.c_str(), in->count);
    in->data[me] = mine;
    trace("rank %d enters %s #%ld", me, kind, s);
    if (++in->arrived == n) {
      if (!strcmp(kind, "allreduce") || !strcmp(kind, "reduce")) {
        in->result = in->data[0];
        for (int r = 1; r < n; ++r) reduce(in->result, in->data[r], count, dt, op);
      } else if (!strcmp(kind, "bcast")) in->result = in->data[root];
      else for (auto& d : in->data) in->result += d;
      in->done = true;
    }
  }
  if (!in->done) block_until([in]() { return in->done; }, "waiting inside a collective operation");
  yield();
  return in->result;
}
}  // namespace sim
using namespace sim;
// the simulator's own copies of the data are not subject to injected allocation failures
static std::string BUF(const void* p, size_t bytes) { AllocPause ap; return std::string((const char*)p, bytes); }
extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Finalize() { return 0; }
int MPI_Comm_size(void* c, int* n) { *n = size_of(c); return 0; }
int MPI_Comm_rank(void* c, int* r) { *r = c == (void*)ompi_mpi_comm_self ? 0 : mpi_rank(); return 0; }
int MPI_Allreduce(const void* s, void* r, int n, void* dt, void* op, void* c) {
  std::string m = BUF(s == (void*)1 ? r : s, (size_t)n * dtsize(dt));  // MPI_IN_PLACE
  const std::string& o = collective(c, "allreduce", m, n, dt, op, 0);
  memcpy(r, o.data(), o.size());
  return 0;
}
int MPI_Reduce(const void* s, void* r, int n, void* dt, void* op, int root, void* c) {
  std::string m = BUF(s == (void*)1 ? r : s, (size_t)n * dtsize(dt));
  const std::string& o = collective(c, "reduce", m, n, dt, op, root);
  if (mpi_rank() == root || size_of(c) == 1) memcpy(r, o.data(), o.size());
  return 0;
}
int MPI_Bcast(void* b, int n, void* dt, int root, void* c) {
  std::string m = BUF(b, (size_t)n * dtsize(dt));
  const std::string& o = collective(c, "bcast", m, n, dt, nullptr, root);
  memcpy(b, o.data(), o.size());
  return 0;
}
int MPI_Barrier(void* c) { collective(c, "barrier", "", 0, nullptr, nullptr, 0); return 0; }
int MPI_Allgather(const void* s, int n, void* dt, void* r, int, void*, void* c) {
  std::string m = BUF(s == (void*)1 ? (char*)r + (size_t)n * dtsize(dt) * mpi_rank() : s, (size_t)n * dtsize(dt));
  const std::string& o = collective(c, "allgather", m, n, dt, nullptr, 0);
  memcpy(r, o.data(), o.size());
  return 0;
}
int MPI_Gather(const void* s, int n, void* dt, void* r, int, void*, int root, void* c) {
  std::string m = BUF(s, (size_t)n * dtsize(dt));
  const std::string& o = collective(c, "gather", m, n, dt, nullptr, root);
  if (mpi_rank() == root || size_of(c) == 1) memcpy(r, o.data(), o.size());
  return 0;
}
int MPI_Comm_dup(void* c, void** out) {
  collective(c, "dup", "", 0, nullptr, nullptr, 0);
  *out = c;  // same group; collectives stay ordered per communicator
  return 0;
}
int MPI_Comm_free(void** c) { *c = (void*)ompi_mpi_comm_null; return 0; }
int MPI_Comm_compare(void* a, void* b, int* r) { *r = a == b ? 0 : 3; return 0; }
double MPI_Wtime() { return (double)now(); }
int MPI_Abort(void*, int code) { failf("mpi-abort", "MPI_Abort(%d) called", code); }
}
