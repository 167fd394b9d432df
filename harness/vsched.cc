// Controlled OpenMP runtime: replaces libgomp for the code under test.
//  * every OpenMP worker is a real thread, but exactly one runs at a time; the next one to run is
//    chosen at every synchronisation operation (fork, barrier, single, critical, lock, atomic
//    section, loop chunk, thread end) according to a schedule script
//  * memory accesses of the code under test (compiled with -fsanitize=thread, linked against this
//    file instead of libtsan) are checked for happens-before data races (vector clocks)
//  * no runnable thread = deadlock; too many scheduling points = livelock
// This file itself is compiled without instrumentation.
#include "vsched.h"

#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>

extern "C" { void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); }
#define memset __real_memset
#define memcpy __real_memcpy
namespace vsched {
constexpr int MAXT = 8;
constexpr size_t STACK = 32u << 20;
typedef uint32_t clk_t_;
struct VC { clk_t_ c[MAXT]; };
static void vjoin(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct WorkShare { void* key; long next, end, incr, chunk; bool init; };
struct Team {
  int n; Team* parent; int level;
  int arrived; int gen;
  VC barrier_vc;
  long ws_done;               // number of work shares somebody has already started
  WorkShare ws[64];           // ring
  int live;
};
enum State { FREE, READY, BLOCK_BARRIER, BLOCK_LOCK, BLOCK_JOIN, DONE };
struct Th {
  int id; State st; Team* team; int tnum; long ws_idx;
  sem_t sem; VC vc;
  void (*fn)(void*); void* data;
  void* lock;                 // lock waited for
  int gen;
  char* stack; pthread_t pt;
  void* pcs[512]; int depth;
  bool used;
};
static Th T[MAXT];
static thread_local Th* me = nullptr;
static int nthreads_icv = 1, max_levels = 1;
static Config cfg;
Log log_;
static bool active = false;

// ------------------------------------------------------------------ shadow memory
struct Cell { clk_t_ w[MAXT], r[MAXT], a[MAXT]; uint8_t wm[MAXT], rm[MAXT], am[MAXT]; };
struct Page { Cell c[512]; };
constexpr size_t HN = 1u << 20;
struct Slot { uintptr_t k; Page* p; };
static Slot* H = nullptr;
static Slot cache[1024];
static Page* find_page(uintptr_t k, bool make) {
  Slot& s = cache[k & 1023];
  if (s.k == k) return s.p;
  size_t i = (k * 0x9E3779B97F4A7C15ull) >> 44;
  while (H[i].k && H[i].k != k) i = (i + 1) & (HN - 1);
  if (!H[i].k) {
    if (!make) return nullptr;
    H[i].k = k;
    H[i].p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  s = H[i];
  return s.p;
}
static void clear_range(const void* p, size_t n) {
  if (!active || !n) return;
  uintptr_t a = (uintptr_t)p & ~7ull, e = ((uintptr_t)p + n + 7) & ~7ull;
  while (a < e) {
    uintptr_t pe = (a | 4095) + 1;
    if (pe > e) pe = e;
    Page* g = find_page(a >> 12, false);
    if (g) memset(&g->c[(a & 4095) >> 3], 0, ((pe - a) >> 3) * sizeof(Cell));
    a = pe;
  }
}
static void report_race(const char* what, Th* t, int other, void* addr) {
  if (log_.nraces < 8) {
    Race& r = log_.race[log_.nraces];
    r.kind = what[0] == 'W' ? 1 : what[0] == 'R' ? 0 : 2;
    r.other_write = what[1] == 'W' ? 1 : what[1] == 'R' ? 0 : 2;
    r.t = t->id; r.other = other; r.addr = addr;
    r.n = 0;
    for (int i = t->depth - 1; i >= 0 && r.n < 6; i--) if (i < 512) r.pc[r.n++] = t->pcs[i];
    Th& o = T[other];
    r.on = 0;
    for (int i = o.depth - 1; i >= 0 && r.on < 6; i--) if (i < 512) r.opc[r.on++] = o.pcs[i];
  }
  log_.nraces++;
}
static inline void access1(uintptr_t a, uint8_t mask, int kind, void* pc) {   // kind 0 read 1 write 2 atomic
  Th* t = me;
  Page* g = find_page(a >> 12, true);
  Cell& c = g->c[(a & 4095) >> 3];
  const int i = t->id;
  const clk_t_ now = t->vc.c[i];
  if (kind == 0) {
    if ((c.r[i] == now && (c.rm[i] & mask) == mask) || (c.w[i] == now && (c.wm[i] & mask) == mask)) return;
    for (int u = 0; u < MAXT; u++) if (u != i) {
      if ((c.wm[u] & mask) && c.w[u] > t->vc.c[u]) { t->pcs[t->depth < 512 ? t->depth : 511] = pc; t->depth++; report_race("RW", t, u, (void*)a); t->depth--; }
      if ((c.am[u] & mask) && c.a[u] > t->vc.c[u]) { t->pcs[t->depth < 512 ? t->depth : 511] = pc; t->depth++; report_race("RA", t, u, (void*)a); t->depth--; }
    }
    if (c.r[i] == now) c.rm[i] |= mask; else { c.r[i] = now; c.rm[i] = mask; }
  } else if (kind == 1) {
    if (c.w[i] == now && (c.wm[i] & mask) == mask) return;
    for (int u = 0; u < MAXT; u++) if (u != i) {
      const char* k = nullptr;
      if ((c.wm[u] & mask) && c.w[u] > t->vc.c[u]) k = "WW";
      else if ((c.rm[u] & mask) && c.r[u] > t->vc.c[u]) k = "WR";
      else if ((c.am[u] & mask) && c.a[u] > t->vc.c[u]) k = "WA";
      if (k) { t->pcs[t->depth < 512 ? t->depth : 511] = pc; t->depth++; report_race(k, t, u, (void*)a); t->depth--; }
    }
    if (c.w[i] == now) c.wm[i] |= mask; else { c.w[i] = now; c.wm[i] = mask; }
  } else {
    if (c.a[i] == now && (c.am[i] & mask) == mask) return;
    for (int u = 0; u < MAXT; u++) if (u != i) {
      const char* k = nullptr;
      if ((c.wm[u] & mask) && c.w[u] > t->vc.c[u]) k = "AW";
      else if (kind == 2 && (c.rm[u] & mask) && c.r[u] > t->vc.c[u]) k = "AR";
      if (k) { t->pcs[t->depth < 512 ? t->depth : 511] = pc; t->depth++; report_race(k, t, u, (void*)a); t->depth--; }
    }
    if (kind == 2) { if (c.a[i] == now) c.am[i] |= mask; else { c.a[i] = now; c.am[i] = mask; } }
  }
}
static inline void access(const void* p, size_t n, int kind, void* pc) {
  if (!active || !me || log_.parallel == 0) return;
  uintptr_t a = (uintptr_t)p, e = a + n;
  log_.accesses++;
  while (a < e) {
    uintptr_t b = a & ~7ull, nx = b + 8;
    if (nx > e) nx = e;
    access1(b, (uint8_t)(((1u << (nx - a)) - 1) << (a - b)), kind, pc);
    a = nx;
  }
}

// ------------------------------------------------------------------ scheduler
[[noreturn]] static void stop(int why) {
  log_.outcome = why;
  cfg.on_stop();
  _exit(0);
}
static int order_rank(int id) {   // smaller = preferred
  if (cfg.base == 1) return MAXT - id;
  if (cfg.base == 2) return (id + MAXT - (int)(log_.points % MAXT)) % MAXT;
  return id;
}
static Th* choose(bool can_continue) {
  Th* c[MAXT]; int n = 0;
  for (auto& t : T) if (t.used && t.st == READY) c[n++] = &t;
  if (!n) stop(DEADLOCK);
  // preference: the running thread first (except in round-robin base), then by rank
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) {
      auto key = [&](Th* t) { return (can_continue && t == me && cfg.base != 2) ? -1 : (can_continue && t == me) ? 1000 : order_rank(t->id); };
      if (key(c[j]) < key(c[i])) { Th* x = c[i]; c[i] = c[j]; c[j] = x; }
    }
  if (n == 1) return c[0];
  long p = log_.points++;
  if (p < cfg.max_log) cfg.arity[p] = (uint8_t)n;
  if (log_.points > cfg.max_points) stop(LIVELOCK);
  int k = 0;
  for (int i = 0; i < cfg.ndev; i++) if (cfg.dev_at[i] == p) k = cfg.dev_alt[i] < n ? cfg.dev_alt[i] : 0;
  return c[k];
}
static void switch_to(Th* t) {
  if (t == me) return;
  log_.switches++;
  Th* self = me;
  sem_post(&t->sem);
  while (sem_wait(&self->sem)) {}
}
static void point() { if (active && me && log_.parallel) switch_to(choose(true)); }
static void block() { switch_to(choose(false)); }

static Th* alloc_thread() {
  for (int i = 0; i < MAXT; i++) if (!T[i].used) {
    Th& t = T[i];
    t.id = i; t.used = true; t.depth = 0;
    if (!t.stack && i) { t.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0); }
    sem_init(&t.sem, 0, 0);
    return &t;
  }
  return nullptr;
}
static void* tmain(void* p) {
  Th* t = (Th*)p;
  me = t;
  while (sem_wait(&t->sem)) {}
  t->fn(t->data);
  // end of the implicit task: implicit barrier of the region
  Team* tm = t->team;
  t->st = DONE;
  tm->live--;
  if (tm->live == 0)
    for (auto& o : T) if (o.used && o.st == BLOCK_JOIN && o.team == tm) o.st = READY;
  Th* n = choose(false);
  log_.switches++;
  sem_post(&n->sem);
  return nullptr;
}
static void init_main() {
  if (me) return;
  Th* t = alloc_thread();
  t->team = nullptr; t->tnum = 0; t->st = READY; t->ws_idx = 0;
  memset(&t->vc, 0, sizeof t->vc);
  t->vc.c[0] = 1;
  me = t;
}
static void run_team(void (*fn)(void*), void* data, unsigned nt, long lo = 0, long hi = 0, long incr = 0, long chunk = 0, bool preloop = false) {
  init_main();
  int level = me->team ? me->team->level : 0;
  int n = nt ? (int)nt : nthreads_icv;
  if (level >= max_levels || !active) n = 1;
  int freeslots = 0;
  for (auto& t : T) if (!t.used) freeslots++;
  if (n - 1 > freeslots) n = freeslots + 1;
  Team* tm = (Team*)calloc(1, sizeof(Team));
  tm->n = n; tm->parent = me->team; tm->level = level + (n > 1);
  if (n == 1) tm->level = level;
  if (preloop) { WorkShare& w = tm->ws[0]; w.next = lo; w.end = hi; w.incr = incr; w.chunk = chunk; w.init = true; tm->ws_done = 1; }
  Team* old = me->team; int oldnum = me->tnum; long oldws = me->ws_idx;
  Th* kids[MAXT]; int nk = 0;
  tm->live = n - 1;
  for (int i = 1; i < n; i++) {
    Th* t = alloc_thread();
    t->team = tm; t->tnum = i; t->ws_idx = preloop ? 1 : 0; t->fn = fn; t->data = data; t->st = READY;
    clk_t_ own = t->vc.c[t->id];
    t->vc = me->vc;
    if (own >= t->vc.c[t->id]) t->vc.c[t->id] = own;
    t->vc.c[t->id]++;
    clear_range(t->stack, STACK);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, t->stack, STACK);
    if (pthread_create(&t->pt, &at, tmain, t)) { perror("pthread_create"); _exit(9); }
    pthread_attr_destroy(&at);
    kids[nk++] = t;
  }
  me->vc.c[me->id]++;
  me->team = tm; me->tnum = 0; me->ws_idx = preloop ? 1 : 0;
  if (n > 1) { log_.parallel++; log_.regions++; }
  point();
  fn(data);
  if (n > 1) {
    if (tm->live > 0) { me->st = BLOCK_JOIN; block(); me->st = READY; }
    for (int i = 0; i < nk; i++) {
      vjoin(me->vc, kids[i]->vc);
      pthread_join(kids[i]->pt, nullptr);
      kids[i]->used = false; kids[i]->st = FREE;
    }
    me->vc.c[me->id]++;
    log_.parallel--;
  }
  me->team = old; me->tnum = oldnum; me->ws_idx = oldws;
  free(tm);
}
static void barrier() {
  Team* tm = me ? me->team : nullptr;
  if (!tm || tm->n == 1) return;
  log_.barriers++;
  vjoin(tm->barrier_vc, me->vc);
  if (++tm->arrived == tm->n) {
    tm->arrived = 0;
    for (auto& t : T) if (t.used && t.team == tm && (t.st == BLOCK_BARRIER || &t == me)) {
      vjoin(t.vc, tm->barrier_vc);
      t.vc.c[t.id]++;
      t.st = READY;
    }
    point();
  } else {
    me->st = BLOCK_BARRIER;
    block();
  }
}
// locks
struct Lock { void* key; Th* owner; VC vc; };
static Lock locks[256];
static Lock& get_lock(void* k) {
  for (auto& l : locks) { if (l.key == k) return l; if (!l.key) { l.key = k; return l; } }
  abort();
}
static char default_critical, atomic_key;
static void lock(void* k) {
  if (!me || !log_.parallel) { if (me) get_lock(k).owner = me; return; }
  point();
  Lock& l = get_lock(k);
  while (l.owner && l.owner != me) { me->st = BLOCK_LOCK; me->lock = k; block(); }
  l.owner = me;
  log_.criticals++;
  vjoin(me->vc, l.vc);
}
static void unlock(void* k) {
  Lock& l = get_lock(k);
  l.owner = nullptr;
  if (!me || !log_.parallel) return;
  vjoin(l.vc, me->vc);
  me->vc.c[me->id]++;
  for (auto& t : T) if (t.used && t.st == BLOCK_LOCK && t.lock == k) t.st = READY;
  point();
}
// std::mutex of the code under test (not recursive; may be released by another thread)
static int mutex_lock(void* k, bool try_only) {
  init_main();
  point();
  Lock& l = get_lock(k);
  while (l.owner) {
    if (try_only) return 16;
    me->st = BLOCK_LOCK; me->lock = k;
    block();
  }
  l.owner = me;
  log_.criticals++;
  vjoin(me->vc, l.vc);
  return 0;
}
static WorkShare& next_ws(bool& first) {
  static WorkShare solo;
  Team* tm = me ? me->team : nullptr;
  if (!tm || tm->n == 1) { first = true; memset(&solo, 0, sizeof solo); return solo; }
  point();
  long i = me->ws_idx++;
  first = i >= tm->ws_done;
  WorkShare& w = tm->ws[i & 63];
  if (first) { tm->ws_done = i + 1; memset(&w, 0, sizeof w); log_.singles++; }
  return w;
}
static bool chunk_next(long* s, long* e) {
  Team* tm = me ? me->team : nullptr;
  (void)tm;
  WorkShare* w = me && me->team && me->team->n > 1 ? &me->team->ws[(me->ws_idx - 1) & 63] : nullptr;
  static thread_local WorkShare solo_ws;
  if (!w) w = &solo_ws;
  point();
  if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
  long c = (w->chunk > 0 ? w->chunk : 1) * w->incr;
  *s = w->next;
  *e = w->next + c;
  if (w->incr > 0 ? *e > w->end : *e < w->end) *e = w->end;
  w->next = *e;
  return true;
}
static bool loop_start(long lo, long hi, long incr, long chunk, long* s, long* e) {
  if (!me || !me->team || me->team->n == 1) {
    if (incr > 0 ? lo >= hi : lo <= hi) return false;
    *s = lo; *e = hi;
    return true;
  }
  bool first;
  WorkShare& w = next_ws(first);
  if (first) { w.next = lo; w.end = hi; w.incr = incr; w.chunk = chunk; w.init = true; }
  return chunk_next(s, e);
}
static bool loop_next(long* s, long* e) {
  if (!me || !me->team || me->team->n == 1) return false;
  return chunk_next(s, e);
}

void begin(const Config& c) {
  cfg = c;
  memset(&log_, 0, sizeof log_);
  if (!H) H = (Slot*)mmap(nullptr, HN * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  active = true;
  init_main();
}
void end() { active = false; }
}  // namespace vsched
using namespace vsched;
#define PC __builtin_return_address(0)
extern "C" {
// ------------------------------------------------------------------ OpenMP entry points
void GOMP_parallel(void (*fn)(void*), void* d, unsigned nt, unsigned) { run_team(fn, d, nt); }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_single_start() { bool f; next_ws(f); return f; }
void* GOMP_single_copy_start() {
  bool f; WorkShare& w = next_ws(f);
  if (f) return nullptr;
  barrier();
  return w.key;
}
void GOMP_single_copy_end(void* p) { if (me && me->team && me->team->n > 1) me->team->ws[(me->ws_idx - 1) & 63].key = p; barrier(); }
void GOMP_critical_start() { lock(&default_critical); }
void GOMP_critical_end() { unlock(&default_critical); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomic_key); }
void GOMP_atomic_end() { unlock(&atomic_key); }
#define LOOP(N) \
  bool GOMP_loop_##N##_start(long a, long b, long i, long c, long* s, long* e) { return loop_start(a, b, i, c, s, e); } \
  bool GOMP_loop_##N##_next(long* s, long* e) { return loop_next(s, e); } \
  void GOMP_parallel_loop_##N(void (*fn)(void*), void* d, unsigned nt, long a, long b, long i, long c, unsigned) { run_team(fn, d, nt, a, b, i, c, true); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(N) \
  bool GOMP_loop_##N##_start(long a, long b, long i, long* s, long* e) { return loop_start(a, b, i, 1, s, e); } \
  bool GOMP_loop_##N##_next(long* s, long* e) { return loop_next(s, e); } \
  void GOMP_parallel_loop_##N(void (*fn)(void*), void* d, unsigned nt, long a, long b, long i, unsigned) { run_team(fn, d, nt, a, b, i, 1, true); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
unsigned GOMP_sections_start(unsigned n) { long s, e; return loop_start(1, (long)n + 1, 1, 1, &s, &e) ? (unsigned)s : 0; }
unsigned GOMP_sections_next() { long s, e; return loop_next(&s, &e) ? (unsigned)s : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) { run_team(fn, d, nt, 1, (long)n + 1, 1, 1, true); }

int omp_get_thread_num() { return me && me->team ? me->tnum : 0; }
int omp_get_num_threads() { return me && me->team ? me->team->n : 1; }
int omp_get_max_threads() { return nthreads_icv; }
void omp_set_num_threads(int n) { nthreads_icv = n < 1 ? 1 : n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int n) { if (n && max_levels < 2) max_levels = 8; }
int omp_get_nested() { return max_levels > 1; }
void omp_set_max_active_levels(int n) { max_levels = n; }
int omp_get_max_active_levels() { return max_levels; }
int omp_in_parallel() { return me && me->team && me->team->n > 1; }
int omp_get_level() { return me && me->team ? me->team->level : 0; }
int omp_get_active_level() { return omp_get_level(); }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return MAXT; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { init_main(); lock(l); }
void omp_unset_lock(void* l) { unlock(l); }
int omp_test_lock(void* l) { init_main(); point(); Lock& k = get_lock(l); if (k.owner) return 0; lock(l); return 1; }

// ------------------------------------------------------------------ instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (me) { if (me->depth < 512) me->pcs[me->depth] = pc; me->depth++; } }
void __tsan_func_exit() { if (me && me->depth > 0) me->depth--; }
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, 0, PC); } \
  void __tsan_write##n(void* p) { access(p, n, 1, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, 0, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, 1, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, 0, PC); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, 1, PC); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, 0, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, 0, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, 1, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, 1, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, 0, PC); }
}
// atomics: executed plainly (one thread runs at a time), tracked as atomic accesses; orders other than
// relaxed create happens-before edges through the address
struct AVC { void* key; VC vc; };
static AVC avc[4096];
static VC& atomic_vc(void* p) {
  size_t i = ((uintptr_t)p >> 2) * 0x9E3779B97F4A7C15ull >> 52;
  while (avc[i].key && avc[i].key != p) i = (i + 1) & 4095;
  avc[i].key = p;
  return avc[i].vc;
}
static void at(void* p, size_t n, int mo, bool rd, bool wr, void* pc) {
  if (!active || !me || !log_.parallel) return;
  log_.atomics++;
  access(p, n, wr ? 2 : 3, pc);
  if (mo == 0) return;
  VC& v = atomic_vc(p);
  if (rd) vjoin(me->vc, v);
  if (wr) { vjoin(v, me->vc); me->vc.c[me->id]++; }
}
#define AT(bits, T) \
  extern "C" T __tsan_atomic##bits##_load(const volatile T* p, int mo) { at((void*)p, sizeof(T), mo, 1, 0, PC); return *p; } \
  extern "C" void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { at((void*)p, sizeof(T), mo, 0, 1, PC); *p = v; } \
  extern "C" T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { at((void*)p, sizeof(T), mo, 1, 1, PC); T o = *p; *p = v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { at((void*)p, sizeof(T), mo, 1, 1, PC); T o = *p; *p = o + v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { at((void*)p, sizeof(T), mo, 1, 1, PC); T o = *p; *p = o - v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { at((void*)p, sizeof(T), mo, 1, 1, PC); T o = *p; *p = o & v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { at((void*)p, sizeof(T), mo, 1, 1, PC); T o = *p; *p = o | v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { at((void*)p, sizeof(T), mo, 1, 1, PC); T o = *p; *p = o ^ v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { at((void*)p, sizeof(T), mo, 1, 1, PC); T o = *p; *p = ~(o & v); return o; } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { at((void*)p, sizeof(T), mo, 1, 1, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { at((void*)p, sizeof(T), mo, 1, 1, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { at((void*)p, sizeof(T), mo, 1, 1, PC); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ memory
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && log_.parallel) clear_range(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p && log_.parallel) clear_range(p, a * b); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (p && log_.parallel) clear_range(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p && log_.parallel) clear_range(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** q, size_t a, size_t n) { *q = memalign(a, n); return *q ? 0 : 12; }
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, 0, PC); access(d, n, 1, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, 0, PC); access(d, n, 1, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, 1, PC); return __real_memset(d, c, n); }
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return active ? mutex_lock(m, false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return active ? mutex_lock(m, true) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!active) return __real_pthread_mutex_unlock(m); init_main(); unlock(m); return 0; }
// function-local statics
int __cxa_guard_acquire(uint64_t* g) { if (*(char*)g) return 0; return 1; }
void __cxa_guard_release(uint64_t* g) {
  *(char*)g = 1;
  if (active && me && log_.parallel) { vjoin(atomic_vc(g), me->vc); me->vc.c[me->id]++; }
}
void __cxa_guard_abort(uint64_t*) {}
}
