// Plain translation unit (never instrumented).
#include "sched.hpp"
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <execinfo.h>
#include <time.h>
extern "C" { void __sym_thread(); int __sym_busy(); extern char __executable_start, etext; }
namespace sched {
static const int MAXT = 4;
typedef uint32_t VC[MAXT];
struct Thread { pthread_t t; sem_t s; bool done; void *waits; int kind; char *lo, *hi; VC vc; bool signalled; };
static Thread T[MAXT]; static int N, left; static bool active; static int preempt; static bool afterRel; static Choose choose; static Fail fail; static void (*body)(int); static sem_t finished, ready; static Stats st;
static thread_local int me = -1; static thread_local int quiet;
static void join(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
// ---- locks
enum { MUTEX = 1, READ, WRITE, COND, GUARD };
struct Lock { void *p; int writer, count; int readers[MAXT]; VC w, r; };
static Lock locks[256]; static int nLocks;
static Lock &lockOf(void *p) { for (int i = 0; i < nLocks; i++) if (locks[i].p == p) return locks[i]; if (nLocks == 256) fail("harness: too many locks", ""); Lock &l = locks[nLocks++]; memset(&l, 0, sizeof l); l.p = p; l.writer = -1; return l; }
static bool freeFor(int t, void *p, int kind) {
  if (kind == COND) return T[t].signalled;
  Lock &l = lockOf(p); if (l.writer >= 0) return false;
  if (kind != READ) for (int i = 0; i < N; i++) if (l.readers[i]) return false;
  return true;
}
static bool runnable(int t) { return !T[t].done && (!T[t].waits || freeFor(t, T[t].waits, T[t].kind)); }
static void resume(int t) { if (t == me) return; sem_post(&T[t].s); }
static void await() { while (sem_wait(&T[me].s)) {} __sym_thread(); }
static void trace(void *p, int kind, void *ra);
static void point(bool stuck) {  // the running thread may (must, when stuck or done) hand over
  st.points++; int c[MAXT], n = 0; if (!stuck && runnable(me)) c[n++] = me; bool free_ = n == 0;
  if (free_ || preempt != 0) for (int i = 0; i < N; i++) if (i != me && runnable(i)) c[n++] = i;
  if (n == 0) {
    if (!left) { sem_post(&finished); return; }
    fail("C14: the requests wait for each other for ever", "");
  }
  int k = 0; if (n > 1) { st.choices++; quiet++; k = choose(n); quiet--; } int t = c[k];
  if (!free_ && t != me) { preempt--; st.preemptions++; }
  bool self = t == me, done = T[me].done; __sym_thread(); if (self) return;
  resume(t); if (!done) await();
}
static void acquire(void *p, int kind) {
  trace(p, kind, nullptr); point(false);
  while (!freeFor(me, p, kind)) { T[me].waits = p; T[me].kind = kind; point(true); T[me].waits = nullptr; }
  Lock &l = lockOf(p); join(T[me].vc, l.w); if (kind == READ) l.readers[me]++; else { join(T[me].vc, l.r); l.writer = me; l.count = 1; }
}
static int release(void *p) {
  Lock &l = lockOf(p);
  if (l.writer == me) { if (--l.count > 0) return 0; l.writer = -1; memcpy(l.w, T[me].vc, sizeof(VC)); }
  else if (l.readers[me]) { l.readers[me]--; join(l.r, T[me].vc); }
  else fail("C14: a lock is released that is not held", "");
  T[me].vc[me]++; if (afterRel) point(false); return 0;
}
static int tryAcquire(void *p, int kind) { point(false); if (!freeFor(me, p, kind)) return EBUSY; Lock &l = lockOf(p); join(T[me].vc, l.w); if (kind == READ) l.readers[me]++; else { join(T[me].vc, l.r); l.writer = me; l.count = 1; } return 0; }
// ---- races
static void trace(void *p, int kind, void *) { if (!getenv("SCHED_TRACE")) return; fprintf(stderr, "T%d kind %d %p\n", me, kind, p); void *b[12]; backtrace_symbols_fd(b, backtrace(b, 12), 2); }
struct Cell { uint32_t w; uint32_t r[MAXT - 1]; };   // w: thread+1 in the top byte, clock; r: clocks of readers 0..2
static const int PB = 10; struct Page { Cell c[1 << PB]; uint32_t pc[(1 << PB) / 4]; };
static const uint32_t PN = 1 << 16; static struct { uint64_t k; Page *p; } pages[PN];
static Page *page(uint64_t a, bool make) {
  uint64_t k = (a >> PB) + 1; uint32_t h = (uint32_t)(k * 0x9E3779B97F4A7C15ull >> 40) & (PN - 1);
  while (pages[h].k && pages[h].k != k) h = (h + 1) & (PN - 1);
  if (!pages[h].k) { if (!make) return nullptr; pages[h].k = k; pages[h].p = (Page *)calloc(1, sizeof(Page)); }
  return pages[h].p;
}
static void where(void *pc, char *o, size_t n) {
  typedef void (*Sy)(void *, const char *, char *, size_t); static Sy sy = (Sy)dlsym(RTLD_DEFAULT, "__sanitizer_symbolize_pc");
  if (sy && pc) { sy(pc, "%f %s:%l", o, n); return; } snprintf(o, n, "+0x%lx", pc ? (unsigned long)((char *)pc - &__executable_start) : 0);
}
static void report(uint64_t a, const char *what, void *pc, uint32_t pc0) {
  char x[400], y[400], d[1200]; where(pc, x, sizeof x); where(pc0 ? &__executable_start + pc0 : nullptr, y, sizeof y);
  snprintf(d, sizeof d, "%s, at %s; last write at %s", what, x, y); active = false; if (const char *f = getenv("SCHED_TRACE")) if (FILE *o = fopen(f, "a")) { fprintf(o, "%s\n", d); void *b[40]; backtrace_symbols_fd(b, backtrace(b, 40), fileno(o)); fclose(o); }
  fail("C14: data race between concurrent requests", d);
}
static inline bool watched(char *p) { return active && me >= 0 && !quiet && !(p >= T[me].lo && p < T[me].hi); }
static void access(void *ptr, size_t n, bool write, void *pc) {
  if (!watched((char *)ptr) || n == 0) return; uint64_t a = (uint64_t)ptr, e = a + n; uint32_t mine = (uint32_t)(me + 1) << 24 | T[me].vc[me];
  while (a < e) {
    Page *g = page(a, true); uint64_t pe = ((a >> PB) + 1) << PB; if (pe > e) pe = e;
    for (; a < pe; a++) {
      Cell &c = g->c[a & ((1 << PB) - 1)]; uint32_t *pw = &g->pc[(a & ((1 << PB) - 1)) / 4]; int wt = (int)(c.w >> 24) - 1;
      if (wt >= 0 && wt != me && (c.w & 0xffffff) > T[me].vc[wt]) report(a, write ? "write after an unordered write" : "read after an unordered write", pc, *pw);
      if (!write) { if (me < MAXT - 1) c.r[me] = T[me].vc[me]; continue; }
      for (int t = 0; t < N; t++) if (t != me && c.r[t] > T[me].vc[t]) report(a, "write after an unordered read", pc, *pw);
      c.w = mine; *pw = (uint32_t)((char *)pc - &__executable_start);
    }
  }
}
static void forget(void *ptr, size_t n) {
  uint64_t a = (uint64_t)ptr, e = a + n;
  while (a < e) { Page *g = page(a, false); uint64_t pe = ((a >> PB) + 1) << PB; if (pe > e) pe = e; if (g) memset(&g->c[a & ((1 << PB) - 1)], 0, (pe - a) * sizeof(Cell)); a = pe; }
}
static struct { void *p; VC v; } atoms[4096]; static int nAtoms;
static void atomic(void *p, int kind, int order) {
  if (!active || me < 0 || quiet) return; if ((char *)p >= T[me].lo && (char *)p < T[me].hi) return;
  if (kind != 2 && kind != 4) { trace(p, 10 + kind, __builtin_return_address(1)); point(false); }  // counters (reference counts) commute: their effects are seen through the accesses they order
  int i = 0; while (i < nAtoms && atoms[i].p != p) i++; if (i == nAtoms) { if (nAtoms == 4096) fail("harness: too many atomics", ""); atoms[nAtoms].p = p; memset(atoms[nAtoms].v, 0, sizeof(VC)); nAtoms++; }
  if (kind != 1 && (order & 1)) join(T[me].vc, atoms[i].v);
  if (kind != 0 && kind != 4 && (order & 2)) { if (kind == 1) memcpy(atoms[i].v, T[me].vc, sizeof(VC)); else join(atoms[i].v, T[me].vc); T[me].vc[me]++; }
}
static void dropAtoms(void *p, size_t n) { for (int i = 0; i < nAtoms; i++) if ((char *)atoms[i].p >= (char *)p && (char *)atoms[i].p < (char *)p + n) memset(atoms[i].v, 0, sizeof(VC)); for (int i = 0; i < nLocks; i++) if ((char *)locks[i].p >= (char *)p && (char *)locks[i].p < (char *)p + n) { locks[i] = locks[--nLocks]; i--; } }
// ---- threads
static void *entry(void *arg) {
  int id = (int)(intptr_t)arg; pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void *b; size_t n; pthread_attr_getstack(&a, &b, &n); pthread_attr_destroy(&a); T[id].lo = (char *)b; T[id].hi = (char *)b + n; me = id; sem_post(&ready);
  await(); body(me); T[me].done = true; left--; point(true); while (sem_wait(&T[id].s)) {} me = -1; return nullptr;
}
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
static void onMalloc(const volatile void *p, size_t n);
static void onFree(const volatile void *p);
Stats runAll(int n, void (*b)(int), Choose c, Fail f, int p, bool ar) {
  static auto create = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create"); static auto rjoin = real<int (*)(pthread_t, void **)>("pthread_join");
  typedef int (*Ins)(void (*)(const volatile void *, size_t), void (*)(const volatile void *)); static bool hooked; if (!hooked) { hooked = true; if (Ins i = (Ins)dlsym(RTLD_DEFAULT, "__sanitizer_install_malloc_and_free_hooks")) i(onMalloc, onFree); }
  memset(T, 0, sizeof T); N = left = n; body = b; choose = c; fail = f; preempt = p; afterRel = ar; nLocks = nAtoms = 0; memset(&st, 0, sizeof st); memset(pages, 0, sizeof pages); sem_init(&finished, 0, 0); sem_init(&ready, 0, 0);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
  for (int i = 0; i < n; i++) { sem_init(&T[i].s, 0, 0); T[i].vc[i] = 1; create(&T[i].t, &at, entry, (void *)(intptr_t)i); while (sem_wait(&ready)) {} }
  int first = n > 1 ? choose(n) : 0; active = true; sem_post(&T[first].s); while (sem_wait(&finished)) {}
  active = false; for (int i = 0; i < n; i++) { sem_post(&T[i].s); rjoin(T[i].t, nullptr); }  // one by one: their destructors run alone
  __sym_thread(); return st;
}
static void onMalloc(const volatile void *p, size_t n) { if (active && p) { forget((void *)p, n); dropAtoms((void *)p, n); } }
static void onFree(const volatile void *p) { if (!active || me < 0 || !p) return; typedef size_t (*Sz)(const volatile void *); static Sz sz = (Sz)dlsym(RTLD_DEFAULT, "__sanitizer_get_allocated_size"); if (sz && !quiet) access((void *)p, sz(p), true, __builtin_return_address(0)); }
static bool here(void *ra) { return active && me >= 0 && (char *)ra >= &__executable_start && (char *)ra < &etext; }
static bool hereLib() { return active && me >= 0 && !__sym_busy(); }
}
using namespace sched;
extern "C" {
void vt_quiet(int d) { quiet += d; }
void __sym_race_load(void *p, int n) { if (active) access(p, n, false, __builtin_return_address(0)); }
void __sym_race_store(void *p, int n) { if (active) access(p, n, true, __builtin_return_address(0)); }
void __sym_race_range(void *p, uint64_t n, int w) { if (active) access(p, n, w, __builtin_return_address(0)); }
void __sym_race_atomic(void *p, int, int kind, int order) { if (active) atomic(p, kind, order); }
void __sym_race_alloc(void *p, size_t n) { onMalloc(p, n); }
void __sym_race_free(void *p, size_t n) { if (active && me >= 0 && !quiet) access(p, n, true, __builtin_return_address(0)); }
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (here(__builtin_return_address(0))) { Lock &l = lockOf(m); if (l.writer == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { l.count++; return 0; } acquire(m, MUTEX); return 0; }
  typedef int (*F)(pthread_mutex_t *); static F r = real<F>("pthread_mutex_lock"); return r(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) { if (here(__builtin_return_address(0))) return tryAcquire(m, MUTEX); typedef int (*F)(pthread_mutex_t *); static F r = real<F>("pthread_mutex_trylock"); return r(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (here(__builtin_return_address(0))) return release(m); typedef int (*F)(pthread_mutex_t *); static F r = real<F>("pthread_mutex_unlock"); return r(m); }
typedef int (*RW)(pthread_rwlock_t *);
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (here(__builtin_return_address(0))) { acquire(m, READ); return 0; } static RW r = real<RW>("pthread_rwlock_rdlock"); return r(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (here(__builtin_return_address(0))) { acquire(m, WRITE); return 0; } static RW r = real<RW>("pthread_rwlock_wrlock"); return r(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (here(__builtin_return_address(0))) return tryAcquire(m, READ); static RW r = real<RW>("pthread_rwlock_tryrdlock"); return r(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (here(__builtin_return_address(0))) return tryAcquire(m, WRITE); static RW r = real<RW>("pthread_rwlock_trywrlock"); return r(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (here(__builtin_return_address(0))) return release(m); static RW r = real<RW>("pthread_rwlock_unlock"); return r(m); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (hereLib()) { T[me].signalled = false; bool ar = afterRel; afterRel = false; release(m); afterRel = ar; T[me].waits = c; T[me].kind = COND; point(true); T[me].waits = nullptr; acquire(m, MUTEX); return 0; }
  typedef int (*F)(pthread_cond_t *, pthread_mutex_t *); static F r = real<F>("pthread_cond_wait"); return r(c, m);
}
static int wake(pthread_cond_t *c, bool all) { for (int i = 0; i < N; i++) if (T[i].waits == c && T[i].kind == COND && !T[i].signalled) { T[i].signalled = true; if (!all) break; } return 0; }
int pthread_cond_signal(pthread_cond_t *c) { if (hereLib()) return wake(c, false); typedef int (*F)(pthread_cond_t *); static F r = real<F>("pthread_cond_signal"); return r(c); }
int pthread_cond_broadcast(pthread_cond_t *c) { if (hereLib()) return wake(c, true); typedef int (*F)(pthread_cond_t *); static F r = real<F>("pthread_cond_broadcast"); return r(c); }
int pthread_once(pthread_once_t *c, void (*f)(void)) {
  if (here(__builtin_return_address(0))) {
    acquire(c, GUARD); if (*(volatile int *)c != 2) { try { f(); } catch (...) { release(c); throw; } *(volatile int *)c = 2; } release(c); return 0;
  }
  typedef int (*F)(pthread_once_t *, void (*)(void)); static F r = real<F>("pthread_once"); return r(c, f);
}
// function-local statics: the guard is a lock
int __cxa_guard_acquire(uint64_t *g) {
  typedef int (*F)(uint64_t *); static F r = nullptr; static bool looking; if (!r && !looking) { looking = true; r = real<F>("__cxa_guard_acquire"); }
  if (!here(__builtin_return_address(0))) return r ? r(g) : !*(char *)g;
  if (*(volatile char *)g) return 0;
  acquire(g, GUARD); if (*(volatile char *)g) { release(g); return 0; } return 1;
}
void __cxa_guard_release(uint64_t *g) { if (here(__builtin_return_address(0))) { int i = 0; while (i < nAtoms && atoms[i].p != g) i++; if (i == nAtoms && nAtoms < 4096) { atoms[nAtoms].p = g; nAtoms++; } memcpy(atoms[i].v, T[me].vc, sizeof(VC)); *(char *)g = 1; release(g); return; } typedef void (*F)(uint64_t *); static F r = real<F>("__cxa_guard_release"); r(g); }
void __cxa_guard_abort(uint64_t *g) { if (here(__builtin_return_address(0))) { release(g); return; } typedef void (*F)(uint64_t *); static F r = real<F>("__cxa_guard_abort"); r(g); }
}
// red-black tree linking happens inside libstdc++
namespace std {
struct _Rb_tree_node_base;
static void touch(void *p) { if (p && active) access(p, 32, true, __builtin_return_address(0)); }
void _Rb_tree_insert_and_rebalance(const bool l, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  typedef void (*F)(bool, _Rb_tree_node_base *, _Rb_tree_node_base *, _Rb_tree_node_base &); static F r = real<F>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"); touch(x); touch(p); touch(&h); r(l, x, p, h);
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  typedef _Rb_tree_node_base *(*F)(_Rb_tree_node_base *, _Rb_tree_node_base &); static F r = real<F>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"); touch(z); touch(&h); return r(z, h);
}
}
