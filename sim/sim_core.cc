// Simulator core: allocation seam, tasks and scheduler, driver, minimiser,
// replay, evidence.  Never instrumented (it is the observer).
#include "sim.hpp"

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <algorithm>
#include <exception>
#include <new>
#include <set>
#include <sstream>
#include <fstream>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

extern "C" {
// T flavour: the race-detecting runtime; weak so that other flavours link.
void simt_begin(int ntasks) __attribute__((weak));
void simt_end() __attribute__((weak));
void simt_task_start(int id) __attribute__((weak));
void simt_task_end(int id) __attribute__((weak));
void simt_clear(void* p, size_t n) __attribute__((weak));
const char* __asan_default_options() {
  return "exitcode=77:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:"
         "detect_stack_use_after_return=0:handle_abort=0:handle_segv=1:symbolize=0:"
         "quarantine_size_mb=8:malloc_context_size=1:alloc_dealloc_mismatch=0:"
         "detect_container_overflow=1:use_sigaltstack=0:max_malloc_fill_size=0:"
         "malloc_fill_byte=0";
}
}

namespace sim {

const char* const fault_names[] = {"alloc-failure", "rank-stall", "field-storage-failure",
                                   "backend-construction-failure", "heap-garbage"};

// ================================================================= shared
enum { MAXPROBE = 96, MAXCAND = 64, MAXPRE = 20000, NSAMPLE = 3 };
struct Probe { char name[56]; std::atomic<long> n; };
struct Result {
  int done;                 // 1 = finished a run, 2 = violation recorded
  char cls[96];
  char msg[1500];
  uint64_t hash;
  long steps, switches;
  int npre;
  struct { long step; int task; } pre[MAXPRE];
};
// a worker process executes at most MAXHIST runs: what a run leaves behind in
// the process can only reach the runs after it, and that history is replayable
enum { MAXHIST = 1500 };
struct Slot { double maxcpu; uint64_t maxidx; std::atomic<uint64_t> cur; std::atomic<int> active; uint64_t loghash; char cls[96]; char msg[1500]; int nhist; uint64_t hist[MAXHIST]; };
struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<int> stop;
  std::atomic<long> runs, nontriv, faulty_runs, steps, switches, ticks, ops, allocs, known;
  std::atomic<long> fconf[F_NKINDS], ffired[F_NKINDS];
  std::atomic<long> conf_runs[F_NKINDS];
  Probe probes[MAXPROBE];
  std::atomic<int> nprobes;
  std::atomic<int> plock;
  std::atomic<long> dlog, dstate;
  Slot slot[64];
  Result res;
};
static Shared* g_sh = nullptr;
static const int LOGT = 1 << 21, STT = 1 << 22;
static std::atomic<uint64_t>* g_logtab = nullptr;
static std::atomic<uint64_t>* g_sttab = nullptr;

static bool insert_hash(std::atomic<uint64_t>* tab, int size, uint64_t h) {
  if (!h) h = 1;
  uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 20;
  for (int k = 0; k < 64; ++k, ++i) {
    std::atomic<uint64_t>& e = tab[i & (size - 1)];
    uint64_t v = e.load(std::memory_order_relaxed);
    if (v == h) return false;
    if (!v) {
      uint64_t z = 0;
      if (e.compare_exchange_strong(z, h)) return true;
      if (z == h) return false;
    }
  }
  return false;  // table crowded: under-count
}

// ================================================================= run state
static uint64_t g_hash_local;
static uint64_t* g_loghash = &g_hash_local;
static bool g_verbose = false;
static Result* g_res = nullptr;      // single-run child: where to report
static int g_slot = -1;              // worker: which slot
static bool g_nontriv = false;
static bool g_count = true;          // second pass of a leak check: do not count
static std::vector<std::pair<std::string, std::string> > g_known;

void Hash::add_d(double d) {
  if (d == 0) d = 0;  // -0
  uint64_t u;
  memcpy(&u, &d, 8);
  add(u);
}
void log(uint64_t v) { uint64_t& h = *g_loghash; h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; }
void log(const std::string& s) { for (char c : s) log((uint64_t)(unsigned char)c); log((uint64_t)s.size()); }
void log_d(double d) { Hash h; h.add_d(d); log(h.h); }
bool tracing() { return g_verbose; }
void trace(const char* fmt, ...) {
  if (!g_verbose) return;
  va_list ap; va_start(ap, fmt);
  fprintf(stdout, "  | ");
  vfprintf(stdout, fmt, ap);
  fprintf(stdout, "\n");
  fflush(stdout);
  va_end(ap);
}
void probe(const char* name, long n) {
  if (!g_sh || !g_count) return;
  int m = g_sh->nprobes.load();
  for (int i = 0; i < m; ++i) if (!strcmp(g_sh->probes[i].name, name)) { g_sh->probes[i].n += n; return; }
  int z = 0;
  while (!g_sh->plock.compare_exchange_weak(z, 1)) z = 0;
  m = g_sh->nprobes.load();
  int i = 0;
  for (; i < m; ++i) if (!strcmp(g_sh->probes[i].name, name)) break;
  if (i == m && m < MAXPROBE) { strncpy(g_sh->probes[m].name, name, 55); g_sh->nprobes = m + 1; }
  if (i < MAXPROBE) g_sh->probes[i].n += n;
  g_sh->plock = 0;
}
void state_hash(uint64_t h) { if (g_sh && g_count && insert_hash(g_sttab, STT, h)) g_sh->dstate++; }
void fault_fired(int kind) { if (g_sh && g_count) g_sh->ffired[kind]++; log((uint64_t)(0xFA00 + kind)); }
void note_nontrivial() { g_nontriv = true; }

static void put(char* dst, size_t n, const std::string& s) { size_t k = std::min(n - 1, s.size()); memcpy(dst, s.data(), k); dst[k] = 0; }

static bool known(const std::string& cls, const std::string& msg) {
  for (auto& k : g_known) if (k.first == cls && msg.find(k.second) != std::string::npos) return true;
  return false;
}
static void record_sched(Result* r);

void fail(const std::string& cls, const std::string& msg) {
  if (g_verbose) { printf("  | VIOLATED %s: %s\n", cls.c_str(), msg.c_str()); fflush(stdout); }
  if (g_res) {
    put(g_res->cls, sizeof g_res->cls, cls);
    put(g_res->msg, sizeof g_res->msg, msg);
    g_res->hash = *g_loghash;
    record_sched(g_res);
    g_res->done = 2;
    _exit(10);
  }
  if (g_slot >= 0) {
    if (known(cls, msg)) { g_sh->known++; _exit(11); }
    put(g_sh->slot[g_slot].cls, 96, cls);
    put(g_sh->slot[g_slot].msg, 1500, msg);
    _exit(10);
  }
  fprintf(stderr, "FAIL %s: %s\n", cls.c_str(), msg.c_str());
  _exit(10);
}
void failf(const char* cls, const char* fmt, ...) {
  char buf[1400];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fail(cls, buf);
}

// ================================================================= tasks
struct Task {
  int id; pthread_t th; sem_t sem;
  int st;  // 0 ready 1 blocked 2 done
  const std::function<bool()>* pred; const char* what; long wake;
  const std::function<void()>* body;
};
enum { MAXTASK = 8 };
static Task g_task[MAXTASK];
static int g_ntask = 0;
static sem_t g_main_sem;
static thread_local int t_self = -1;
static thread_local int t_nosched = 0;
static bool g_running = false;
static long g_step, g_now, g_gap, g_maxsteps, g_mean, g_nswitch;
static Rng g_srng(1);
static bool g_explicit;
static size_t g_preptr;
static const std::vector<std::pair<long, int> >* g_pre;
static std::vector<std::pair<long, int> > g_rec;
bool yield_on_alloc = false;

int self() { return t_self; }
bool in_tasks() { return g_running && t_self >= 0; }
long now() { return g_now; }

static void record_sched(Result* r) {
  r->steps = g_step; r->switches = g_nswitch;
  r->npre = 0;
  for (auto& p : g_rec) { if (r->npre >= MAXPRE) break; r->pre[r->npre].step = p.first; r->pre[r->npre].task = p.second; r->npre++; }
}

static bool runnable(int i) {
  Task& t = g_task[i];
  if (t.st == 2) return false;
  if (t.wake > g_now) return false;
  if (t.st == 0) return true;
  return t.pred == nullptr || (*t.pred)();
}
static void new_gap() { g_gap = 1 + (long)(g_srng.next() % (uint64_t)(2 * g_mean)); }

// choose the next task at decision point g_step. forced: the current task cannot go on.
static int choose(int cur, bool forced) {
  int cand[MAXTASK], n = 0;
  for (;;) {
    n = 0;
    for (int i = 0; i < g_ntask; ++i) if (runnable(i)) cand[n++] = i;
    if (n) break;
    long w = -1;
    for (int i = 0; i < g_ntask; ++i) if (g_task[i].st != 2 && g_task[i].wake > g_now) w = (w < 0) ? g_task[i].wake : std::min(w, g_task[i].wake);
    if (w >= 0) { g_now = w; continue; }
    return -1;
  }
  if (g_explicit) {
    while (g_preptr < g_pre->size() && (*g_pre)[g_preptr].first < g_step) ++g_preptr;
    if (g_preptr < g_pre->size() && (*g_pre)[g_preptr].first == g_step) {
      int want = (*g_pre)[g_preptr].second;
      for (int i = 0; i < n; ++i) if (cand[i] == want) return want;
    }
    if (!forced) return cur;
    return cand[0];
  }
  int c = cand[g_srng.below(n)];
  return c;
}

static void deadlock() {
  std::string m = "no task can make progress:";
  for (int i = 0; i < g_ntask; ++i) {
    char b[200];
    snprintf(b, sizeof b, " task%d=%s", i, g_task[i].st == 2 ? "finished" : (g_task[i].what ? g_task[i].what : "ready"));
    m += b;
  }
  fail("hang", m);
}

static void handoff(int cur, int nxt) {
  if (nxt == cur) return;
  g_nswitch++;
  log((uint64_t)(0x5C0000 + nxt));
  sem_post(&g_task[nxt].sem);
  if (cur >= 0) while (sem_wait(&g_task[cur].sem)) {}
}

static void decide(bool forced) {
  int cur = t_self;
  t_nosched++;
  int nxt = choose(cur, forced);
  if (nxt < 0) deadlock();
  if (nxt != cur || forced) { if (g_rec.size() < MAXPRE) g_rec.push_back(std::make_pair(g_step, nxt)); }
  if (g_task[nxt].st == 1) { g_task[nxt].st = 0; g_task[nxt].pred = nullptr; g_task[nxt].what = nullptr; }
  handoff(cur, nxt);
  t_nosched--;
}

void yield() {
  if (t_self < 0 || t_nosched || !g_running) return;
  ++g_step; ++g_now;
  if (g_step > g_maxsteps) failf("no-progress", "step budget %ld exceeded", g_maxsteps);
  if (g_explicit) {
    if (g_preptr < g_pre->size()) {
      while (g_preptr < g_pre->size() && (*g_pre)[g_preptr].first < g_step) ++g_preptr;
      if (g_preptr < g_pre->size() && (*g_pre)[g_preptr].first == g_step) decide(false);
    }
    return;
  }
  if (--g_gap > 0) return;
  new_gap();
  decide(false);
}
void sleep_ticks(long n) {
  if (t_self < 0) { g_now += n; return; }
  ++g_step; ++g_now;
  g_task[t_self].wake = g_now + n;
  g_task[t_self].what = "stalled";
  decide(true);
}
void block_until(const std::function<bool()>& pred, const char* what) {
  if (t_self < 0) {
    if (!pred()) failf("hang", "single caller would wait for ever: %s", what);
    return;
  }
  ++g_step; ++g_now;
  if (pred()) return;
  Task& t = g_task[t_self];
  t.st = 1; t.pred = &pred; t.what = what;
  decide(true);
}
struct Bar { int arrived, gen; };
static Bar g_bar[256];
void barrier(int id, int n) {
  Bar& b = g_bar[id & 255];
  int gen = b.gen;
  if (++b.arrived == n) { b.arrived = 0; b.gen++; return; }
  static const char* w = "finished this request; waits for the other ranks";
  block_until([&b, gen]() { return b.gen != gen; }, w);
}

static void* task_main(void* p) {
  Task* t = (Task*)p;
  t_self = t->id;
  while (sem_wait(&t->sem)) {}
  if (simt_task_start) simt_task_start(t->id);
  try {
    (*t->body)();
  } catch (const std::exception& e) {
    failf("unexpected-exception", "task %d ended with exception: %s", t->id, e.what());
  } catch (...) {
    failf("unexpected-exception", "task %d ended with an unknown exception", t->id);
  }
  if (simt_task_end) simt_task_end(t->id);
  t_nosched++;
  t->st = 2;
  ++g_step; ++g_now;
  bool all = true;
  for (int i = 0; i < g_ntask; ++i) if (g_task[i].st != 2) all = false;
  if (all) { sem_post(&g_main_sem); return nullptr; }
  int nxt = choose(-1, true);
  if (nxt < 0) deadlock();
  if (g_rec.size() < MAXPRE) g_rec.push_back(std::make_pair(g_step, nxt));
  if (g_task[nxt].st == 1) { g_task[nxt].st = 0; g_task[nxt].pred = nullptr; g_task[nxt].what = nullptr; }
  log((uint64_t)(0x5C0000 + nxt));
  sem_post(&g_task[nxt].sem);
  return nullptr;
}

void mpi_reset(const Plan&);

void run_tasks(const Plan& p, const SchedCfg& c, const std::vector<std::function<void()> >& bodies) {
  g_ntask = (int)bodies.size();
  if (g_ntask > MAXTASK) abort();
  g_mean = std::max(1l, c.mean_gap);
  g_maxsteps = g_step + c.max_steps;
  sem_init(&g_main_sem, 0, 0);
  memset(g_bar, 0, sizeof g_bar);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  for (int i = 0; i < g_ntask; ++i) {
    Task& t = g_task[i];
    t.id = i; t.st = 0; t.pred = nullptr; t.what = nullptr; t.wake = 0; t.body = &bodies[i];
    sem_init(&t.sem, 0, 0);
  }
  if (simt_begin) simt_begin(g_ntask);
  g_running = true;
  new_gap();
  for (int i = 0; i < g_ntask; ++i) if (pthread_create(&g_task[i].th, &at, task_main, &g_task[i])) abort();
  ++g_step;
  int first = choose(0, true);
  if (g_rec.size() < MAXPRE) g_rec.push_back(std::make_pair(g_step, first));
  log((uint64_t)(0x5C0000 + first));
  sem_post(&g_task[first].sem);
  while (sem_wait(&g_main_sem)) {}
  for (int i = 0; i < g_ntask; ++i) { pthread_join(g_task[i].th, nullptr); sem_destroy(&g_task[i].sem); }
  g_running = false;
  if (simt_end) simt_end();
  pthread_attr_destroy(&at);
  sem_destroy(&g_main_sem);
  (void)p;
}

// ================================================================= heap
static struct { bool on; int task; long k, n, seen; bool fired; } g_arm;
static thread_local int t_pause = 0;
static long g_live = 0;
static int g_garbage = 0;
static uint64_t g_gstate = 1;
static bool g_track = false;

void alloc_arm(long k, long n) { g_arm.on = true; g_arm.task = t_self; g_arm.k = k; g_arm.n = n; g_arm.seen = 0; g_arm.fired = false; }
bool alloc_disarm();
long alloc_seen() { return g_arm.seen; }

// Call sites of the allocations of one operation: the innermost return
// addresses that lie in this executable, hashed, and numbered in the order in
// which they first occur (so the numbers do not depend on addresses).
namespace {
const int MAXSITE = 1024, SITE_SLOTS = 4096, SITE_DEPTH = 8;
struct Site { uint64_t h; long first, mid, last, n; };
struct { bool on; int n; Site s[MAXSITE]; short slot[SITE_SLOTS]; } g_site;
extern "C" char __executable_start, etext;
}
__attribute__((noinline, no_sanitize("address"))) static void site_record(long idx) {
  uint64_t h = 1469598103934665603ull;
  static thread_local uintptr_t lo = 0, hi = 0;
  if (!hi) {
    pthread_attr_t a; void* b = nullptr; size_t sz = 0;
    if (pthread_getattr_np(pthread_self(), &a) == 0) { pthread_attr_getstack(&a, &b, &sz); pthread_attr_destroy(&a); }
    lo = (uintptr_t)b; hi = lo + sz;
  }
  uintptr_t fp = (uintptr_t)__builtin_frame_address(0);
  for (int d = 0; d < SITE_DEPTH + 3; ++d) {
    if (fp < lo || fp + 16 > hi || (fp & 7)) break;
    uintptr_t ret = ((uintptr_t*)fp)[1], nx = ((uintptr_t*)fp)[0];
    if (ret >= (uintptr_t)&__executable_start && ret <= (uintptr_t)&etext) {
      h = (h ^ (ret - (uintptr_t)&__executable_start)) * 1099511628211ull; h ^= h >> 29;
    }
    if (nx <= fp) break;
    fp = nx;
  }
  if (!h) h = 1;
  unsigned i = (unsigned)(h % SITE_SLOTS);
  while (g_site.slot[i] && g_site.s[g_site.slot[i] - 1].h != h) i = (i + 1) % SITE_SLOTS;
  if (!g_site.slot[i]) {
    if (g_site.n == MAXSITE) return;
    g_site.s[g_site.n] = Site{h, idx, idx, idx, 0};
    g_site.slot[i] = (short)++g_site.n;
  }
  Site& s = g_site.s[g_site.slot[i] - 1];
  s.last = idx; ++s.n;
  if ((s.n & (s.n - 1)) == 0) s.mid = idx;
}
bool alloc_disarm() { bool f = g_arm.on && g_arm.fired; g_arm.on = false; g_site.on = false; return f; }
void alloc_record() { memset(&g_site, 0, sizeof g_site); g_site.on = true; alloc_arm(1l << 40); }
int alloc_sites() { return g_site.n; }
long alloc_site_instance(long site, long which) {
  if (!g_site.n) return 0;
  const Site& s = g_site.s[site % g_site.n];
  return which % 3 == 0 ? s.first : which % 3 == 1 ? s.last : s.mid;
}
void heap_garbage(int mode) { g_garbage = mode; }
long live_blocks() { return g_live; }
AllocPause::AllocPause() : saved(t_pause) { t_pause = 1; t_nosched++; }
AllocPause::~AllocPause() { t_pause = saved; t_nosched--; }

AllocFault::AllocFault(const Plan& p, int op) {
  for (auto& f : p.faults)
    if (f.kind == F_ALLOC && f.where == op) { armed = true; alloc_arm(f.k, f.n ? f.n : 1); return; }
}
void AllocFault::end() {
  if (!armed) return;
  armed = false;
  fired = alloc_disarm();
}

static void* do_alloc(size_t n, size_t align, bool nothrow) {
  if (g_arm.on && !t_pause && g_arm.task == t_self) {
    long i = g_arm.seen++;
    if (g_site.on) site_record(i);
    if (i >= g_arm.k && i < g_arm.k + g_arm.n) {
      if (nothrow) return nullptr;  // the caller copes, nothing to report
      if (!g_arm.fired) { g_arm.fired = true; if (g_sh && g_count) g_sh->ffired[F_ALLOC]++; log((uint64_t)0xFA11); }
      throw std::bad_alloc();
    }
  }
  if (yield_on_alloc && !t_pause) yield();
  if (n > (1ull << 32)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  void* p = nullptr;
  if (align <= 16) p = malloc(n ? n : 1);
  else if (posix_memalign(&p, align, n ? n : 1)) p = nullptr;
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (g_track) {
    __atomic_add_fetch(&g_live, 1, __ATOMIC_RELAXED);
    if (g_garbage && !t_pause) {
      if (simt_clear) simt_clear(p, n);
      unsigned char* c = (unsigned char*)p;
      size_t m = n > 65536 ? 65536 : n;
      switch (g_garbage) {
        case 1: memset(c, 0xFF, m); break;
        case 2: for (size_t i = 0; i + 4 <= m; i += 4) { g_gstate = g_gstate * 6364136223846793005ull + 1442695040888963407ull; int v = (int)((g_gstate >> 40) % 7); memcpy(c + i, &v, 4); } break;
        case 3: for (size_t i = 0; i + 8 <= m; i += 8) { g_gstate = g_gstate * 6364136223846793005ull + 1442695040888963407ull; memcpy(c + i, &g_gstate, 8); } break;
        case 4: memset(c, 0x01, m); break;
      }
    } else if (simt_clear) simt_clear(p, n);
  }
  return p;
}
// One allocation made by a C library on behalf of the code under test: true if it is to fail.
bool c_alloc_fails() {
  if (!g_arm.on || t_pause || g_arm.task != t_self) return false;
  long i = g_arm.seen++;
  if (g_site.on) site_record(i);
  if (i < g_arm.k || i >= g_arm.k + g_arm.n) return false;
  if (!g_arm.fired) { g_arm.fired = true; if (g_sh && g_count) g_sh->ffired[F_ALLOC]++; log((uint64_t)0xFA12); }
  probe("METIS out of memory");
  return true;
}
static void do_free(void* p) {
  if (!p) return;
  if (g_track) __atomic_sub_fetch(&g_live, 1, __ATOMIC_RELAXED);
  free(p);
}
}  // namespace sim

// METIS allocates memory of its own. When there is none it gives up and reports
// METIS_ERROR_MEMORY, leaving the partition as it was (tried with the real library).
extern "C" {
typedef int PartFn(void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*);
PartFn __real_METIS_PartGraphRecursive, __real_METIS_PartGraphKway;
int __wrap_METIS_PartGraphRecursive(void* a, void* b, void* c, void* d, void* e, void* f, void* g, void* h, void* i, void* j, void* k, void* l, void* m) {
  return sim::c_alloc_fails() ? -3 : __real_METIS_PartGraphRecursive(a, b, c, d, e, f, g, h, i, j, k, l, m);
}
int __wrap_METIS_PartGraphKway(void* a, void* b, void* c, void* d, void* e, void* f, void* g, void* h, void* i, void* j, void* k, void* l, void* m) {
  return sim::c_alloc_fails() ? -3 : __real_METIS_PartGraphKway(a, b, c, d, e, f, g, h, i, j, k, l, m);
}
}
void* operator new(size_t n) { return sim::do_alloc(n, 0, false); }
void* operator new[](size_t n) { return sim::do_alloc(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::do_alloc(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::do_alloc(n, 0, true); }
void operator delete(void* p) noexcept { sim::do_free(p); }
void operator delete[](void* p) noexcept { sim::do_free(p); }
void operator delete(void* p, size_t) noexcept { sim::do_free(p); }
void operator delete[](void* p, size_t) noexcept { sim::do_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_free(p); }
#if __cpp_aligned_new
void* operator new(size_t n, std::align_val_t a) { return sim::do_alloc(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim::do_alloc(n, (size_t)a, false); }
void operator delete(void* p, std::align_val_t) noexcept { sim::do_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::do_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::do_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::do_free(p); }
#endif

namespace sim {
// ================================================================= plan text
std::string to_text(const Plan& p) {
  std::ostringstream o;
  o << "sim-replay 1\nproperty " << p.property << "\nseed " << p.seed << "\n";
  for (auto& c : p.cfg) o << "cfg " << c.first << " " << c.second << "\n";
  int i = 0;
  for (auto& op : p.ops) {
    o << "op " << op.kind << " " << op.task;
    for (long a : op.a) o << " " << a;
    o << "  # [" << i++ << "] " << (op.kind >= 0 && op.kind < workload.nopnames ? workload.opnames[op.kind] : "?") << "\n";
  }
  for (auto& f : p.faults)
    o << "fault " << f.kind << " " << f.where << " " << f.k << " " << f.n << "  # " << fault_names[f.kind] << "\n";
  o << "sched_seed " << p.sched_seed << "\nexplicit " << (p.explicit_sched ? 1 : 0) << "\n";
  for (uint64_t q : p.prelude) o << "prelude " << q << "\n";
  for (auto& q : p.pre) o << "pre " << q.first << " " << q.second << "\n";
  return o.str();
}
static bool from_text(const std::string& txt, Plan* p, std::string* cls, uint64_t* hash) {
  std::istringstream in(txt);
  std::string line;
  bool ok = false;
  while (std::getline(in, line)) {
    size_t h = line.find('#');
    if (h != std::string::npos) line = line.substr(0, h);
    std::istringstream l(line);
    std::string w;
    if (!(l >> w)) continue;
    if (w == "sim-replay") ok = true;
    else if (w == "property") l >> p->property;
    else if (w == "seed") l >> p->seed;
    else if (w == "cfg") { std::string k; long v; l >> k >> v; p->cfg[k] = v; }
    else if (w == "op") { Op o; l >> o.kind >> o.task; for (long& a : o.a) l >> a; p->ops.push_back(o); }
    else if (w == "fault") { Fault f; l >> f.kind >> f.where >> f.k >> f.n; p->faults.push_back(f); }
    else if (w == "sched_seed") l >> p->sched_seed;
    else if (w == "explicit") { int e; l >> e; p->explicit_sched = e; }
    else if (w == "prelude") { uint64_t v; l >> v; p->prelude.push_back(v); }
    else if (w == "pre") { long s; int t; l >> s >> t; p->pre.push_back(std::make_pair(s, t)); }
    else if (w == "expect") { if (cls) l >> *cls; if (hash) l >> *hash; }
  }
  return ok;
}

static Plan make_plan(uint64_t seed) {
  Plan p;
  p.property = workload.property;
  p.seed = seed;
  Rng r(seed);
  p.sched_seed = r.next();
  workload.generate(p, r);
  return p;
}

// ================================================================= one run
static void arm_watchdog(int secs) {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, nullptr);
}
static void on_prof(int) { fail("hang", "a single run did not finish within its CPU budget"); }

static void run_once(const Plan& p) {
  g_hash_local = 0;
  *g_loghash = 0xC0FFEE;
  g_step = g_now = g_nswitch = 0;
  g_srng = Rng(p.sched_seed);
  g_explicit = p.explicit_sched;
  g_preptr = 0;
  g_pre = &p.pre;
  g_rec.clear();
  g_rec.reserve(256);
  yield_on_alloc = false;
  g_nontriv = false;
  g_gstate = p.seed * 2 + 1;
  heap_garbage((int)p.get("heap", 0) % 5);
  mpi_reset(p);
  g_track = true;
  long before = g_live;
  workload.run(p);
  mpi_reset(p);
  long after = g_live;
  alloc_disarm();
  uint64_t h = *g_loghash;
  bool nt = g_nontriv;
  if (workload.check_leaks && after > before) {
    // function-level caches may grow once; a leak grows every time
    g_count = false;
    g_step = g_now = 0; g_srng = Rng(p.sched_seed); g_preptr = 0; g_gstate = p.seed * 2 + 1;
    mpi_reset(p);
    long b2 = g_live;
    workload.run(p);
    mpi_reset(p);
    long a2 = g_live;
    alloc_disarm();
    g_count = true;
    if (a2 > b2) { *g_loghash = h; failf("leak", "%ld blocks allocated during the run were still allocated after everything was destroyed", a2 - b2); }
  }
  *g_loghash = h;
  g_nontriv = nt;
}

static void account(const Plan& p) {
  g_sh->runs++;
  if (g_nontriv) g_sh->nontriv++;
  if (!p.faults.empty()) g_sh->faulty_runs++;
  g_sh->steps += g_step;
  g_sh->ticks += g_now;
  g_sh->switches += g_nswitch;
  g_sh->ops += (long)p.ops.size();
  for (auto& f : p.faults) g_sh->fconf[f.kind]++;
  if (p.get("heap", 0) % 5) { g_sh->fconf[F_HEAP]++; g_sh->ffired[F_HEAP]++; }
  if (insert_hash(g_logtab, LOGT, *g_loghash) && g_nontriv) g_sh->dlog++;
}

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void quiet_io(const char* errfile) {
  int n = open("/dev/null", O_WRONLY);
  if (!g_verbose) dup2(n, 1);
  if (errfile) { int e = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2); close(e); }
  else dup2(n, 2);
  close(n);
}
static std::string g_tmp;

static const int RUN_CPU = 20;
// Runs one plan in a fresh child. Returns class ("" = held).
static std::string run_child(const Plan& p, uint64_t* hash, std::string* msg, std::vector<std::pair<long, int> >* pre) {
  memset(&g_sh->res, 0, offsetof(Result, pre));
  std::string err = g_tmp + "/child.err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    g_res = &g_sh->res;
    g_slot = -1;
    g_loghash = &g_sh->res.hash;
    g_count = false;
    quiet_io(err.c_str());
    signal(SIGPROF, on_prof);
    for (uint64_t sd : p.prelude) { arm_watchdog(RUN_CPU); run_once(make_plan(sd)); }
    arm_watchdog(RUN_CPU);
    run_once(p);
    g_res->done = 1;
    record_sched(g_res);
    _exit(0);
  }
  int st = 0;
  double t0 = wall();
  bool killed = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (wall() - t0 > 120) { kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
    usleep(200);
  }
  Result& r = g_sh->res;
  if (hash) *hash = r.hash;
  if (pre) { pre->clear(); for (int i = 0; i < r.npre; ++i) pre->push_back(std::make_pair(r.pre[i].step, r.pre[i].task)); }
  if (killed) { if (msg) *msg = "run blocked for ever outside the simulator"; return "hang"; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && r.done == 1) { if (msg) msg->clear(); return ""; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 10 && r.done == 2) { if (msg) *msg = r.msg; return r.cls; }
  // crash
  std::string cls, m, line;
  std::ifstream f(err);
  while (std::getline(f, line)) {
    if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("SUMMARY:") != std::string::npos ||
        line.find("terminate called") != std::string::npos || line.find("what():") != std::string::npos || line.find("Assertion") != std::string::npos) {
      size_t k = line.find("ERROR: AddressSanitizer: ");
      if (k != std::string::npos) {
        std::string kind = line.substr(k + 25);
        kind = kind.substr(0, kind.find(' '));
        cls = "memory-error:" + kind;
      }
      if (m.size() < 800) m += line + "; ";
    }
  }
  char b[80];
  if (cls.empty()) {
    if (WIFSIGNALED(st)) { snprintf(b, sizeof b, "crash:signal-%d", WTERMSIG(st)); cls = b; }
    else { snprintf(b, sizeof b, "crash:exit-%d", WEXITSTATUS(st)); cls = b; }
  }
  if (msg) *msg = m.empty() ? "process died during the run" : m;
  return cls;
}

// ================================================================= minimiser
static double g_min_deadline;
static bool still(const Plan& p, const std::string& cls) {
  if (wall() > g_min_deadline) return false;
  std::string m;
  return run_child(p, nullptr, &m, nullptr) == cls;
}
static Plan without_ops(const Plan& p, size_t lo, size_t hi) {
  Plan q = p;
  q.ops.erase(q.ops.begin() + lo, q.ops.begin() + hi);
  q.faults.clear();
  for (Fault f : p.faults) {
    if (f.kind == F_ALLOC) {
      if (f.where >= (int)hi) f.where -= (int)(hi - lo);
      else if (f.where >= (int)lo) continue;
    }
    q.faults.push_back(f);
  }
  return q;
}
static Plan minimise(Plan p, const std::string& cls, double secs) {
  g_min_deadline = wall() + secs;
  for (int round = 0; round < 3; ++round) {
    bool changed = false;
    for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1 && !p.ops.empty(); chunk /= 2) {
      for (size_t i = 0; i + 1 <= p.ops.size();) {
        size_t hi = std::min(p.ops.size(), i + chunk);
        Plan q = without_ops(p, i, hi);
        if (still(q, cls)) { p = q; changed = true; } else i += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < p.faults.size();) {
      Plan q = p; q.faults.erase(q.faults.begin() + i);
      if (still(q, cls)) { p = q; changed = true; } else ++i;
    }
    std::vector<std::string> keys;
    for (auto& c : p.cfg) if (c.first != "variant") keys.push_back(c.first);
    for (auto& k : keys) {
      long v = p.cfg[k];
      long tries[] = {0, 1, v / 2, v - 1};
      for (long t : tries) if (t < v && t >= 0) {
        Plan q = p; q.cfg[k] = t;
        if (still(q, cls)) { p = q; changed = true; break; }
      }
    }
    for (size_t i = 0; i < p.ops.size(); ++i) for (int a = 0; a < 6; ++a) if (p.ops[i].a[a]) {
      long v = p.ops[i].a[a];
      long tries[] = {0, v % 2, v % 7};
      for (long t : tries) if (t != v) { Plan q = p; q.ops[i].a[a] = t; if (still(q, cls)) { p = q; changed = true; break; } }
    }
    if (!changed) break;
  }
  // schedule: make explicit, then drop preemptions
  std::vector<std::pair<long, int> > pre;
  std::string m;
  if (run_child(p, nullptr, &m, &pre) == cls && !pre.empty() && pre.size() < MAXPRE) {
    Plan q = p;
    q.explicit_sched = true; q.pre = pre;
    if (still(q, cls)) {
      p = q;
      for (size_t chunk = std::max<size_t>(1, p.pre.size() / 2); chunk >= 1 && !p.pre.empty(); chunk /= 2) {
        for (size_t i = 0; i < p.pre.size();) {
          Plan r = p;
          r.pre.erase(r.pre.begin() + i, r.pre.begin() + std::min(p.pre.size(), i + chunk));
          if (still(r, cls)) p = r; else i += chunk;
        }
        if (chunk == 1) break;
      }
    }
  }
  return p;
}

// ================================================================= driver
static void worker(int slot, uint64_t base, long maxruns, double deadline) {
  g_slot = slot;
  g_loghash = &g_sh->slot[slot].loghash;
  quiet_io(nullptr);
  signal(SIGPROF, on_prof);
  Slot& sl = g_sh->slot[slot];
  sl.nhist = 0;
  for (;;) {
    if (g_sh->stop || wall() > deadline) break;
    if (sl.nhist == MAXHIST) _exit(12);  // go on in a fresh process
    uint64_t idx = g_sh->next++;
    if ((long)idx >= maxruns) break;
    sl.hist[sl.nhist++] = idx;
    g_sh->slot[slot].cur = idx;
    g_sh->slot[slot].active = 1;
    arm_watchdog(RUN_CPU);
    double cpu0 = clock() / (double)CLOCKS_PER_SEC;
    {
      Plan p = make_plan(mix(base, idx));
      run_once(p);
      account(p);
    }
    cpu0 = clock() / (double)CLOCKS_PER_SEC - cpu0;
    if (cpu0 > sl.maxcpu) { sl.maxcpu = cpu0; sl.maxidx = idx; }
    g_sh->slot[slot].active = 0;
  }
  _exit(0);
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
static std::vector<std::string> split(const std::string& s, char d) {
  std::vector<std::string> r; std::string c;
  for (char ch : s) { if (ch == d) { r.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty()) r.push_back(c);
  return r;
}
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream b; b << i.rdbuf(); return b.str(); }
}  // namespace sim

using namespace sim;

// a crash on a wild pointer may come sooner or later: what counts is the crash
static bool crashed(const std::string& c) { return c.compare(0, 6, "crash:") == 0 || c.compare(0, 13, "memory-error:") == 0; }

static int do_replay(const char* file, bool verbose, const char* self) {
  (void)self;
  Plan p; std::string ecls; uint64_t eh = 0;
  if (!from_text(slurp(file), &p, &ecls, &eh)) { fprintf(stderr, "bad replay file %s\n", file); return 2; }
  if (p.property != workload.property) { fprintf(stderr, "replay file is for %s\n", p.property.c_str()); return 2; }
  g_verbose = verbose;
  uint64_t h = 0; std::string m;
  std::string cls = run_child(p, &h, &m, nullptr);
  printf("REPLAY class=%s hash=%llu expected-class=%s expected-hash=%llu\n", cls.empty() ? "none" : cls.c_str(), (unsigned long long)h, ecls.c_str(), (unsigned long long)eh);
  if (!m.empty()) printf("REPLAY message: %s\n", m.c_str());
  if (cls.empty()) return 0;
  if (!ecls.empty() && (cls != ecls || (h != eh && !crashed(cls)))) return 2;
  printf("VIOLATION property=%s replay=%s\n", workload.property, file);
  return 1;
}

int main(int argc, char** argv) {
  std::string tier = "quick", evid, replay, outdir = "/verif/replays", knownf, flavour = "A";
  uint64_t seed = 1; double budget = 40; long maxruns = 1000000000; int nw = 8; bool verbose = false; long one = -1; double mintime = 60;
  std::string dump; long dethash = 0; bool no_gate = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--runs") maxruns = atol(val().c_str());
    else if (a == "--workers") nw = atoi(val().c_str());
    else if (a == "--evidence") evid = val();
    else if (a == "--replay") replay = val();
    else if (a == "--outdir") outdir = val();
    else if (a == "--known") knownf = val();
    else if (a == "--verbose") verbose = true;
    else if (a == "--one") one = atol(val().c_str());
    else if (a == "--mintime") mintime = atof(val().c_str());
    else if (a == "--flavour") flavour = val();
    else if (a == "--dethash") dethash = atol(val().c_str());
    else if (a == "--nogate") no_gate = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  // the same addresses in every process
  if (personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR")) {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    setenv("SIM_ASLR", "0", 1);
    execv("/proc/self/exe", argv);
  }
  double t0 = wall();
  size_t sz = sizeof(Shared);
  g_sh = (Shared*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_logtab = (std::atomic<uint64_t>*)mmap(nullptr, 8ull * LOGT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_sttab = (std::atomic<uint64_t>*)mmap(nullptr, 8ull * STT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (g_sh == MAP_FAILED || g_logtab == MAP_FAILED || g_sttab == MAP_FAILED) return 2;
  char tmpl[] = "/tmp/simXXXXXX";
  if (!mkdtemp(tmpl)) return 2;
  g_tmp = tmpl;
  struct Cleanup { ~Cleanup() { unlink((g_tmp + "/child.err").c_str()); rmdir(g_tmp.c_str()); } } cleanup;

  if (!replay.empty()) return do_replay(replay.c_str(), verbose, argv[0]);

  // known findings of this property: "finding: property=<id> class=<cls> match=<substring> :: <text>"
  std::vector<std::string> known_text;
  if (!knownf.empty()) {
    std::ifstream f(knownf); std::string l;
    while (std::getline(f, l)) {
      std::string pfx = std::string("finding: property=") + workload.property + " class=";
      if (l.compare(0, pfx.size(), pfx)) continue;
      size_t m = l.find(" match="), t = l.find(" :: ");
      if (m == std::string::npos || t == std::string::npos) continue;
      g_known.push_back(std::make_pair(l.substr(pfx.size(), m - pfx.size()), l.substr(m + 7, t - m - 7)));
      known_text.push_back(l.substr(t + 4));
    }
  }
  uint64_t base = mix(seed, 0x51);
  for (const char* c = workload.property; *c; ++c) base = mix(base, (uint64_t)*c);
  if (one >= 0) {
    Plan p = make_plan(mix(base, (uint64_t)one));
    printf("%s", to_text(p).c_str());
    g_verbose = verbose;
    uint64_t h; std::string m;
    std::string c = run_child(p, &h, &m, nullptr);
    printf("class=%s hash=%llu msg=%s\n", c.c_str(), (unsigned long long)h, m.c_str());
    return c.empty() ? 0 : 1;
  }
  if (dethash) {  // determinism self-test: print the log hash of each of N runs
    for (long i = 0; i < dethash; ++i) { uint64_t h; std::string m; std::string c = run_child(make_plan(mix(base, (uint64_t)i)), &h, &m, nullptr); printf("%ld %llu %s\n", i, (unsigned long long)h, c.c_str()); }
    return 0;
  }
  printf("sim: property=%s tier=%s VERIF_SEED=%llu base=%llu workers=%d budget=%.0fs\n", workload.property, tier.c_str(), (unsigned long long)seed, (unsigned long long)base, nw, budget);
  fflush(stdout);
  double deadline = t0 + budget;
  std::vector<pid_t> pid(nw, 0);
  std::vector<std::pair<uint64_t, int> > cand;  // index
  std::map<uint64_t, std::vector<uint64_t> > before;  // what the same process had executed
  auto spawn = [&](int s) { fflush(stdout); pid_t p = fork(); if (p == 0) worker(s, base, maxruns, deadline); pid[s] = p; };
  for (int s = 0; s < nw; ++s) spawn(s);
  int live = nw;
  std::vector<double> slot_t(nw, wall());
  std::vector<uint64_t> slot_i(nw, ~0ull);
  long infra = 0;
  double first_viol = 0;
  while (live) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(2000);
      double w = wall();
      for (int s = 0; s < nw; ++s) if (pid[s]) {
        uint64_t c = g_sh->slot[s].cur;
        if (c != slot_i[s]) { slot_i[s] = c; slot_t[s] = w; }
        else if (w - slot_t[s] > 150) { kill(pid[s], SIGKILL); slot_t[s] = w; }
      }
      if (first_viol > 0 && w - first_viol > 5) g_sh->stop = 1;
      continue;
    }
    int s = -1;
    for (int i = 0; i < nw; ++i) if (pid[i] == p) s = i;
    if (s < 0) continue;
    pid[s] = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { live--; continue; }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 11 || WEXITSTATUS(st) == 12)) { spawn(s); continue; }
    uint64_t c = g_sh->slot[s].cur;
    cand.push_back(std::make_pair(c, 1));
    for (int i = 0; i + 1 < g_sh->slot[s].nhist; ++i) before[c].push_back(mix(base, g_sh->slot[s].hist[i]));
    if (first_viol == 0) first_viol = wall();
    (void)infra;
    if (cand.size() >= 12) g_sh->stop = 1;
    if (!g_sh->stop) spawn(s); else live--;
  }
  double t_search = wall() - t0;
  std::sort(cand.begin(), cand.end());
  int exitc = 0; long nviol = 0; std::string vline;
  std::string vmsg, vcls;
  for (auto& cd : cand) {
    Plan p = make_plan(mix(base, cd.first));
    uint64_t h1 = 0, h2 = 0; std::string m1, m2;
    std::string c1 = run_child(p, &h1, &m1, nullptr), c2 = run_child(p, &h2, &m2, nullptr);
    if (!c1.empty() && known(c1, m1)) { g_sh->known++; continue; }
    if (c1.empty() && c2.empty()) {
      // perhaps it needs what earlier runs left behind in the process
      const std::vector<uint64_t>& all = before[cd.first];
      double limit = wall() + 60;
      for (size_t n = 1; !all.empty() && c1.empty() && wall() < limit; n *= 4) {
        size_t k = std::min(n, all.size());
        p.prelude.assign(all.end() - k, all.end());
        c1 = run_child(p, &h1, &m1, nullptr);
        if (k == all.size()) break;
      }
      if (!c1.empty()) {
        for (size_t chunk = std::max<size_t>(1, p.prelude.size() / 2); chunk >= 1; chunk /= 2) {
          for (size_t i = 0; i < p.prelude.size() && wall() < limit;) {
            Plan q = p; q.prelude.erase(q.prelude.begin() + i, q.prelude.begin() + std::min(p.prelude.size(), i + chunk));
            if (run_child(q, nullptr, nullptr, nullptr) == c1) p = q; else i += chunk;
          }
          if (chunk == 1) break;
        }
        c1 = run_child(p, &h1, &m1, nullptr); c2 = run_child(p, &h2, &m2, nullptr);
        if (!c1.empty()) printf("sim: run %llu needs %zu earlier runs in the same process\n", (unsigned long long)cd.first, p.prelude.size());
      }
    }
    if (c1.empty() || c1 != c2 || (h1 != h2 && !crashed(c1))) {
      fprintf(stderr, "sim: run %llu: candidate violation did not reproduce (%s/%s %llu/%llu)\n", (unsigned long long)cd.first, c1.c_str(), c2.c_str(), (unsigned long long)h1, (unsigned long long)h2);
      exitc = 2; continue;
    }
    printf("sim: run %llu violates: [%s] %s\n", (unsigned long long)cd.first, c1.c_str(), m1.c_str());
    printf("sim: minimising (%zu operations, %zu faults)\n", p.ops.size(), p.faults.size());
    fflush(stdout);
    Plan q = no_gate ? p : minimise(p, c1, mintime);
    uint64_t hq = 0; std::string mq;
    std::string cq = run_child(q, &hq, &mq, nullptr);
    if (cq != c1) { q = p; cq = c1; hq = h1; mq = m1; }
    mkdir(outdir.c_str(), 0777);
    char fn[600];
    snprintf(fn, sizeof fn, "%s/%s-%llu-%llu.replay", outdir.c_str(), workload.property, (unsigned long long)seed, (unsigned long long)cd.first);
    {
      std::ofstream f(fn);
      f << to_text(q) << "expect " << cq << " " << hq << "\n# " << mq << "\n# minimised from run " << cd.first << " of VERIF_SEED=" << seed << " (" << p.ops.size() << " operations, " << p.faults.size() << " faults); replay: python3 /verif/check.py " << workload.property << " --replay " << fn << "\n";
    }
    fflush(stdout);
    pid_t rp = fork();
    if (rp == 0) {
      int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
      execl(argv[0], argv[0], "--replay", fn, (char*)nullptr);
      _exit(3);
    }
    int st = 0; waitpid(rp, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) { fprintf(stderr, "sim: replay in a fresh process did not reproduce (status %d)\n", st); exitc = 2; continue; }
    printf("sim: minimised to %zu operations, %zu faults, %zu preemptions: [%s] %s\n", q.ops.size(), q.faults.size(), q.pre.size(), cq.c_str(), mq.c_str());
    vline = std::string("VIOLATION property=") + workload.property + " replay=" + fn;
    vmsg = mq; vcls = cq;
    nviol = (long)cand.size();
    exitc = 1;
    break;
  }
  // determinism sample: re-execute some runs in fresh children, compare hashes
  long det_n = 0, det_bad = 0;
  if (exitc == 0) {
    long total = g_sh->runs;
    for (long i = 0; i < 12 && i < total; ++i) {
      Plan p = make_plan(mix(base, (uint64_t)(i * 7 % total)));
      uint64_t a = 0, b = 0;
      run_child(p, &a, nullptr, nullptr); run_child(p, &b, nullptr, nullptr);
      det_n++; if (a != b) det_bad++;
    }
  }
  double w = wall() - t0;
  if (!evid.empty()) {
    std::ostringstream o;
    long runs = g_sh->runs;
    o << "{\n \"property\": \"" << workload.property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
      << "  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << g_sh->dlog << ",\n  \"rule\": \"" << jesc(workload.rule) << "\",\n"
      << "  \"samples\": [";
    for (int i = 0; i < NSAMPLE; ++i) o << (i ? ", " : "") << "\"" << jesc(to_text(make_plan(mix(base, (uint64_t)i))).substr(0, 1500)) << "\"";
    o << "],\n  \"simulated_runs_per_hour\": " << (long)(runs / std::max(1e-9, t_search) * 3600)
      << ",\n  \"seeds_per_hour\": " << (long)(runs / std::max(1e-9, t_search) * 3600)
      << ",\n  \"runs_with_faults\": " << g_sh->faulty_runs << ",\n  \"runs_without_faults\": " << (runs - g_sh->faulty_runs)
      << ",\n  \"operations_executed\": " << g_sh->ops
      << ",\n  \"simulated_steps\": " << g_sh->steps << ",\n  \"simulated_time_ticks\": " << g_sh->ticks
      << ",\n  \"task_switches\": " << g_sh->switches
      << ",\n  \"distinct_states\": " << g_sh->dstate
      << ",\n  \"distinctness_measure\": \"64-bit hash of the complete event log of a run (operations, outcomes, switches, faults); states: hash of the model state after an operation\""
      << ",\n  \"faults\": {";
    for (int k = 0; k < F_NKINDS; ++k) o << (k ? ", " : "") << "\"" << fault_names[k] << "\": {\"configured\": " << g_sh->fconf[k] << ", \"fired\": " << g_sh->ffired[k] << "}";
    o << "},\n  \"probes\": {";
    for (int k = 0; k < g_sh->nprobes; ++k) o << (k ? ", " : "") << "\"" << jesc(g_sh->probes[k].name) << "\": " << g_sh->probes[k].n;
    o << "},\n  \"determinism\": {\"runs_executed_twice\": " << det_n << ", \"mismatches\": " << det_bad << "}"
      << ",\n  \"known_findings_hit\": " << g_sh->known
      << ",\n  \"build_flavour\": \"" << flavour << "\""
      << ",\n  \"workers\": " << nw
      << ",\n  \"real_components\": \"" << jesc(workload.real_components) << "\""
      << ",\n  \"stub_components\": \"" << jesc(workload.stub_components) << "\"";
    if (!vcls.empty()) o << ",\n  \"violation\": \"" << jesc("[" + vcls + "] " + vmsg) << "\"";
    o << "\n },\n \"assumptions\": [";
    auto as = split(workload.assumptions, '|');
    for (size_t i = 0; i < as.size(); ++i) o << (i ? ", " : "") << "\"" << jesc(as[i]) << "\"";
    o << "],\n \"wall_s\": " << w << ",\n \"violations\": " << nviol << "\n}\n";
    std::ofstream f(evid + ".tmp"); f << o.str(); f.close();
    rename((evid + ".tmp").c_str(), evid.c_str());
  }
  printf("sim: %ld runs (%ld distinct non-trivial) in %.1fs, %ld distinct states, %ld switches, alloc faults fired %ld, determinism %ld/%ld\n", (long)g_sh->runs, (long)g_sh->dlog, t_search, (long)g_sh->dstate, (long)g_sh->switches, (long)g_sh->ffired[F_ALLOC], det_n - det_bad, det_n);
  { double mx = 0; uint64_t mi = 0; for (auto& sl : g_sh->slot) if (sl.maxcpu > mx) { mx = sl.maxcpu; mi = sl.maxidx; }
    printf("sim: longest run %.2fs of processor time (run %llu)\n", mx, (unsigned long long)mi); }
  if (verbose) for (int k = 0; k < g_sh->nprobes; ++k) printf("  probe %s = %ld\n", g_sh->probes[k].name, (long)g_sh->probes[k].n);
  for (auto& t : known_text) printf("KNOWN-FINDING: property=%s %s\n", workload.property, t.c_str());
  if (det_bad) fprintf(stderr, "sim: WARNING %ld of %ld re-executed runs differed\n", det_bad, det_n);
  if (!vline.empty()) printf("%s\n", vline.c_str());
  fflush(stdout);
  return exitc;
}
