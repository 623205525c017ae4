// Runtime of the T flavour.  The library and the workload are compiled with
// -fsanitize=thread; the compiler's calls arrive here instead of in libtsan.
// Every memory access (outside the accessing task's own stack) is a
// scheduling point of the simulator and is checked against a happens-before
// vector-clock model: two accesses to a common byte by different tasks, one
// of them a write, with no synchronisation between them, are a conflict.
// Locks, once-initialisation and guards are simulated (they block the
// simulated task, never the process).
#include "sim.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

typedef uintptr_t up;
extern "C" char __executable_start;

namespace {
enum { T = 8, NSYNC = 1 << 16 };
struct Cell {
  uint32_t gen;
  uint8_t wm[T], rm[T];
  uint32_t w[T], r[T], wpc[T], rpc[T];
};
bool g_on = false;
uint32_t g_gen = 1;
uint32_t g_vc[T][T];
Cell** g_l1 = nullptr;  // one entry per 2 MB of address space
struct Sync { up addr; uint32_t gen; uint32_t vc[T]; int owner, count, readers; };
Sync* g_sync = nullptr;
long g_accesses = 0;

thread_local int t_id = -1;
thread_local up t_lo = 0, t_hi = 0;
thread_local int t_busy = 0;
thread_local up t_stk[64];
thread_local int t_depth = 0;

Cell* cell(up granule) {
  up a = granule << 3;
  up i = (a >> 21) & ((1ull << 26) - 1);
  Cell* c = g_l1[i];
  if (!c) {
    void* m = mmap(nullptr, sizeof(Cell) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) abort();
    c = g_l1[i] = (Cell*)m;
  }
  return &c[granule & ((1 << 18) - 1)];
}
Sync* sync_of(up a) {
  if (!g_sync) g_sync = (Sync*)mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  up h = (a * 0x9E3779B97F4A7C15ull) >> 40;
  for (int k = 0; k < NSYNC; ++k) {
    Sync& s = g_sync[(h + k) & (NSYNC - 1)];
    if (s.gen != g_gen) { memset((void*)&s, 0, sizeof s); s.gen = g_gen; s.addr = a; s.owner = -1; return &s; }
    if (s.addr == a) return &s;
  }
  abort();
}
void acquire(Sync* s) { for (int i = 0; i < T; ++i) if (s->vc[i] > g_vc[t_id][i]) g_vc[t_id][i] = s->vc[i]; }
void release(Sync* s, bool join) {
  for (int i = 0; i < T; ++i) if (!join || g_vc[t_id][i] > s->vc[i]) s->vc[i] = g_vc[t_id][i];
  ++g_vc[t_id][t_id];
}

void name(char* out, size_t n, up pc) {
  Dl_info d;
  memset(&d, 0, sizeof d);
  if (pc && dladdr((void*)pc, &d) && d.dli_sname) {
    int st = 1;
    char* dm = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    snprintf(out, n, "%s", st == 0 && dm ? dm : d.dli_sname);
  } else if (pc) {
    snprintf(out, n, "exe+0x%lx", (unsigned long)(pc - (up)&__executable_start));
  } else {
    snprintf(out, n, "?");
  }
}
[[noreturn]] void conflict(int u, bool w, bool uw, up pc, uint32_t upc) {
  t_busy++;
  char a[300], b[300], c[300] = "";
  name(a, sizeof a, pc);
  name(b, sizeof b, upc ? (up)&__executable_start + upc : 0);
  if (t_depth > 1 && t_depth <= 64) name(c, sizeof c, t_stk[t_depth - 1]);
  sim::failf("data-race", "task %d %s memory that task %d %s with nothing ordering the two: in %s (called from %s) and in %s",
             t_id, w ? "writes" : "reads", u, uw ? "wrote" : "read", a, c, b);
}

inline void touch(up g, uint8_t m, bool w, up pc) {
  Cell* c = cell(g);
  if (c->gen != g_gen) { memset((void*)c, 0, sizeof *c); c->gen = g_gen; }
  const uint32_t* vc = g_vc[t_id];
  uint32_t rel = (uint32_t)(pc - (up)&__executable_start);
  for (int u = 0; u < T; ++u) {
    if (u == t_id) continue;
    if ((c->wm[u] & m) && c->w[u] > vc[u]) conflict(u, w, true, pc, c->wpc[u]);
    if (w && (c->rm[u] & m) && c->r[u] > vc[u]) conflict(u, w, false, pc, c->rpc[u]);
  }
  uint32_t now = vc[t_id];
  if (w) { c->wm[t_id] = c->w[t_id] == now ? (uint8_t)(c->wm[t_id] | m) : m; c->w[t_id] = now; c->wpc[t_id] = rel; }
  else { c->rm[t_id] = c->r[t_id] == now ? (uint8_t)(c->rm[t_id] | m) : m; c->r[t_id] = now; c->rpc[t_id] = rel; }
}
inline void acc(up a, size_t n, bool w, up pc) {
  if (!g_on || t_id < 0 || t_busy || !n) return;
  if (a >= t_lo && a < t_hi) return;
  sim::yield();
  ++g_accesses;
  up e = a + n;
  while (a < e) {
    up g = a >> 3, stop = (g + 1) << 3;
    if (stop > e) stop = e;
    uint8_t m = (uint8_t)(((1u << (stop - a)) - 1) << (a & 7));
    touch(g, m, w, pc);
    a = stop;
  }
}
inline bool active() { return g_on && t_id >= 0 && !t_busy; }
}  // namespace

#define PC ((up)__builtin_return_address(0))
extern "C" {
long simt_accesses() { return g_accesses; }
void simt_begin(int n) {
  if (n > T) abort();
  if (!g_l1) g_l1 = (Cell**)mmap(nullptr, sizeof(Cell*) << 26, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if ((void*)g_l1 == MAP_FAILED) abort();
  ++g_gen;
  memset(g_vc, 0, sizeof g_vc);
  for (int i = 0; i < T; ++i) g_vc[i][i] = 1;
  g_on = true;
}
void simt_end() { g_on = false; }
void simt_task_start(int id) {
  pthread_attr_t at; void* lo; size_t sz;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &sz);
  pthread_attr_destroy(&at);
  t_lo = (up)lo; t_hi = (up)lo + sz; t_depth = 0; t_busy = 0;
  t_id = id;
}
void simt_task_end(int) { t_id = -1; }
// fresh memory: whatever happened to these bytes before is over
void simt_clear(void* p, size_t n) {
  if (!g_on) return;
  up g = (up)p >> 3, e = ((up)p + n + 7) >> 3;
  for (; g < e; ++g) { Cell* c = cell(g); if (c->gen == g_gen) c->gen = 0; }
}

void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (g_on && t_id >= 0) { if (t_depth >= 0 && t_depth < 64) t_stk[t_depth] = (up)pc; ++t_depth; } }
void __tsan_func_exit() { if (g_on && t_id >= 0 && t_depth > 0) --t_depth; }
#define RW(n) \
  void __tsan_read##n(void* p) { acc((up)p, n, false, PC); } \
  void __tsan_write##n(void* p) { acc((up)p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { acc((up)p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { acc((up)p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { acc((up)p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { acc((up)p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { acc((up)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { acc((up)p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { acc((up)p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { acc((up)p, 8, *p != v, PC); }
void __tsan_vptr_read(void** p) { acc((up)p, 8, false, PC); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
#define PRE() do { if (active()) sim::yield(); } while (0)
#define ACQ(p, mo) do { if (active() && acq(mo)) acquire(sync_of((up)(p))); } while (0)
#define REL(p, mo, join) do { if (active() && rel(mo)) release(sync_of((up)(p)), join); } while (0)
#define ATOMIC(bits, ty) \
  ty __tsan_atomic##bits##_load(const volatile ty* p, int mo) { PRE(); ACQ(p, mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile ty* p, ty v, int mo) { PRE(); REL(p, mo, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_exchange(volatile ty* p, ty v, int mo) { PRE(); ACQ(p, mo); REL(p, mo, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty* p, ty v, int mo) { PRE(); ACQ(p, mo); REL(p, mo, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty* p, ty v, int mo) { PRE(); ACQ(p, mo); REL(p, mo, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty* p, ty v, int mo) { PRE(); ACQ(p, mo); REL(p, mo, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty* p, ty v, int mo) { PRE(); ACQ(p, mo); REL(p, mo, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty* p, ty v, int mo) { PRE(); ACQ(p, mo); REL(p, mo, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_fetch_nand(volatile ty* p, ty v, int mo) { PRE(); ACQ(p, mo); REL(p, mo, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int mo, int fmo) { \
    PRE(); bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) { ACQ(p, mo); REL(p, mo, true); } else ACQ(p, fmo); return ok; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
static char g_fence;
void __tsan_atomic_thread_fence(int mo) { if (active()) { sim::yield(); Sync* s = sync_of((up)&g_fence); if (acq(mo)) acquire(s); if (rel(mo)) release(s, true); } }
void __tsan_atomic_signal_fence(int) {}

// ---- what instrumented code calls instead of the C library
void* simt_memcpy(void* d, const void* s, size_t n) { acc((up)s, n, false, PC); acc((up)d, n, true, PC); return memcpy(d, s, n); }
void* simt_memmove(void* d, const void* s, size_t n) { acc((up)s, n, false, PC); acc((up)d, n, true, PC); return memmove(d, s, n); }
void* simt_memset(void* d, int c, size_t n) { acc((up)d, n, true, PC); return memset(d, c, n); }
int simt_memcmp(const void* a, const void* b, size_t n) { acc((up)a, n, false, PC); acc((up)b, n, false, PC); return memcmp(a, b, n); }
size_t simt_strlen(const char* a) { size_t n = strlen(a); acc((up)a, n + 1, false, PC); return n; }

static void lock(up a, bool recursive, const char* what) {
  sim::yield();
  Sync* s = sync_of(a);
  if (recursive && s->owner == t_id) { s->count++; return; }
  sim::block_until([s]() { return s->owner == -1 && s->readers == 0; }, what);
  s->owner = t_id; s->count = 1;
  acquire(s);
}
static void unlock(up a) {
  Sync* s = sync_of(a);
  if (s->owner == t_id) {
    if (--s->count == 0) { release(s, true); s->owner = -1; }
  } else if (s->readers > 0) { release(s, true); s->readers--; }
  sim::yield();
}
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int simt_pthread_mutex_lock(pthread_mutex_t* m) { if (!active()) return pthread_mutex_lock(m); lock((up)m, recursive(m), "waits for a lock"); return 0; }
int simt_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!active()) return pthread_mutex_trylock(m);
  sim::yield();
  Sync* s = sync_of((up)m);
  if (s->owner == t_id && recursive(m)) { s->count++; return 0; }
  if (s->owner != -1) return 16;  // EBUSY
  s->owner = t_id; s->count = 1; acquire(s);
  return 0;
}
int simt_pthread_mutex_unlock(pthread_mutex_t* m) { if (!active()) return pthread_mutex_unlock(m); unlock((up)m); return 0; }
int simt_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!active()) return pthread_rwlock_wrlock(m); lock((up)m, false, "waits for a lock"); return 0; }
int simt_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!active()) return pthread_rwlock_rdlock(m);
  sim::yield();
  Sync* s = sync_of((up)m);
  sim::block_until([s]() { return s->owner == -1; }, "waits for a lock");
  s->readers++; acquire(s);
  return 0;
}
int simt_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!active()) return pthread_rwlock_unlock(m); unlock((up)m); return 0; }
int simt_pthread_once(pthread_once_t* o, void (*f)()) {
  if (!active()) return pthread_once(o, f);
  sim::yield();
  Sync* s = sync_of((up)o);
  volatile int* v = (volatile int*)o;
  sim::block_until([s]() { return s->owner == -1; }, "waits for a one-time initialisation");
  if (*v != 2) {  // glibc: done
    s->owner = t_id;
    try { f(); } catch (...) { s->owner = -1; throw; }
    *v = 2; s->owner = -1;
    release(s, true);
  }
  acquire(s);
  return 0;
}

// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  if (!active()) { return *b ? 0 : 1; }
  sim::yield();
  Sync* s = sync_of((up)g);
  sim::block_until([s]() { return s->owner == -1; }, "waits for the initialisation of a static");
  acquire(s);
  if (*b) return 0;
  s->owner = t_id;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  *(volatile uint8_t*)g = 1;
  if (!active()) return;
  Sync* s = sync_of((up)g);
  s->owner = -1;
  release(s, true);
}
void __cxa_guard_abort(uint64_t* g) {
  if (!active()) return;
  Sync* s = sync_of((up)g);
  s->owner = -1;
  release(s, true);
}
}
