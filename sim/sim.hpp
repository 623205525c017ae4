// Deterministic simulator: public interface for workloads.
//
// One Plan (cfg + operations + faults + schedule) is one exactly repeatable
// execution.  Plans are generated from one 64-bit seed, written as text to a
// replay file, minimised, and replayed in a fresh process.
#ifndef SIM_HPP_
#define SIM_HPP_
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0,n)
  long below(long n) { return n <= 1 ? 0 : (long)(next() % (uint64_t)n); }
  // uniform in [lo,hi]
  long range(long lo, long hi) { return lo + below(hi - lo + 1); }
  bool chance(int num, int den) { return below(den) < num; }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below((long)i)]);
  }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD6E8FEB86659FD93ull));
  return r.next();
}

// ---------------------------------------------------------------- plans
enum FaultKind { F_ALLOC = 0, F_STALL = 1, F_FIELD = 2, F_BACKEND = 3, F_HEAP = 4, F_NKINDS };
extern const char* const fault_names[];

struct Op {
  int kind = 0, task = 0;
  long a[6] = {0, 0, 0, 0, 0, 0};
};
struct Fault {
  int kind = 0;
  int where = 0;  // operation index (or task, for stalls)
  long k = 0;     // occurrence (k-th allocation, k-th backend call, ...)
  long n = 0;     // extent (length of a stall, number of repeats ...)
};
struct Plan {
  std::string property;
  uint64_t seed = 0;
  std::map<std::string, long> cfg;
  std::vector<Op> ops;
  std::vector<Fault> faults;
  uint64_t sched_seed = 0;
  bool explicit_sched = false;
  std::vector<std::pair<long, int> > pre;  // explicit preemptions (step, task)
  std::vector<uint64_t> prelude;           // seeds of runs which the process executes first
  long get(const std::string& k, long dflt = 0) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? dflt : it->second;
  }
};
std::string to_text(const Plan&);

// A workload: one per property.
struct Workload {
  const char* property;
  const char* const* opnames;      // names of operation kinds
  int nopnames;
  void (*generate)(Plan&, Rng&);   // fill cfg/ops/faults from the PRNG
  void (*run)(const Plan&);        // execute; calls fail() on a violation
  const char* rule;                // what one case is, what makes it non-trivial
  const char* real_components;
  const char* stub_components;
  const char* assumptions;         // separated by '|'
  bool check_leaks;
};
extern const Workload workload;    // defined by each workload TU

// ---------------------------------------------------------------- reporting
[[noreturn]] void fail(const std::string& cls, const std::string& msg);
[[noreturn]] void failf(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void log(uint64_t v);                       // into the event-log hash
void log(const std::string& s);
void log_d(double v);
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // only with --verbose
bool tracing();
void probe(const char* name, long n = 1);   // "this rare condition was hit"
void state_hash(uint64_t h);                // a distinct state reached
void fault_fired(int kind);
void note_nontrivial();                     // this run is non-trivial by the rule

struct Hash {
  uint64_t h = 1469598103934665603ull;
  void add(uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; }
  void add_d(double d);
  void add_s(const std::string& s) { for (char c : s) add((unsigned char)c); add(s.size()); }
};

// ---------------------------------------------------------------- allocation
// Arm: the k-th operator new (0-based) made by the arming task fails, and the
// n-1 following ones too.  disarm() returns whether it fired.
void alloc_arm(long k, long n = 1);
bool alloc_disarm();
long alloc_seen();             // allocations counted while armed (so far)
void alloc_record();           // count allocations and the call sites they come from, until alloc_disarm
int alloc_sites();             // distinct call sites recorded
long alloc_site_instance(long site, long which);  // number of the first, last or a middle allocation of a site
void heap_garbage(int mode);   // what fresh heap memory contains in this run
long live_blocks();
// Harness code running inside library callbacks: not counted, never fails.
struct AllocPause { int saved; AllocPause(); ~AllocPause(); };
// Arms if the plan has an F_ALLOC fault for operation index op.
struct AllocFault {
  bool armed = false; bool fired = false;
  AllocFault(const Plan& p, int op);
  void end();
  ~AllocFault() { end(); }
};

// ---------------------------------------------------------------- tasks
struct SchedCfg {
  long mean_gap = 50;      // mean steps between preemptions
  long max_steps = 50000000;
};
// Run the bodies as simulated tasks until all have finished.
void run_tasks(const Plan& p, const SchedCfg& c, const std::vector<std::function<void()> >& bodies);
int  self();               // task id or -1
bool in_tasks();
void yield();              // scheduling point
void sleep_ticks(long n);  // simulated time
long now();                // simulated time (steps)
void block_until(const std::function<bool()>& pred, const char* what);
void barrier(int id, int n);  // harness-level barrier over n tasks
extern bool yield_on_alloc;

// ---------------------------------------------------------------- ranks (MPI)
void mpi_set_world(int nranks);   // ranks = task ids 0..n-1
long mpi_collectives(int rank);   // collectives entered so far
int  mpi_rank();
int  mpi_size();
void* mpi_world();                // MPI_COMM_WORLD as void*
}  // namespace sim
#endif
