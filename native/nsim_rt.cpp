// The runtime behind the compiler's memory-access instrumentation
// (-fsanitize=thread emits the calls; ThreadSanitizer's own runtime is not
// linked).  Every instrumented access, atomic operation, lock and static
// initialisation is a point at which the simulator may take the token from
// the running thread and give it to another; the schedule says where.  A
// vector-clock detector reports conflicting accesses that no synchronisation
// orders.  Nothing here draws random numbers or reads a clock.
#include "nsim_rt.h"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <unistd.h>

extern "C" void* __real_calloc(size_t, size_t);
extern "C" void __real_free(void*);

namespace {
  const int MAXT = 6;                       // thread 0 is the one that sets up
  const size_t STACK = 4 << 20;

  typedef uint32_t clk;
  struct VC { clk c[MAXT]; };

  struct Thread {
    pthread_t id;
    sem_t go;
    char* lo = nullptr;
    char* hi = nullptr;
    VC vc;
    bool done = false;
    bool blocked = false;
    const std::function<void()>* f = nullptr;
    void* site[8];                          // innermost functions entered
    int depth = 0;
  };

  bool g_on = false;                        // a simulation is running
  int g_n = 0;
  Thread g_t[MAXT];
  thread_local int t_me = 0;
  thread_local int t_in = 0;                // inside the runtime
  sem_t g_over;
  const std::vector<nsim::Preempt>* g_schedule = nullptr;
  size_t g_next = 0;
  uint64_t g_left = 0;
  nsim::Outcome* g_out = nullptr;
  const uint64_t FAIR = 400000;             // longest run without a switch, in events
  uint64_t g_run = 0;
  uint64_t g_limit = 0;

  // ------------------------------------------------------------ shadow
  struct Cell {
    uintptr_t key;                          // granule + 1; 0 is free
    clk w[MAXT], r[MAXT];
    uint8_t wm[MAXT], rm[MAXT];             // bytes of the granule
    uint8_t am;                             // of the writes and reads: atomic ones (per thread, bits 0.. writes)
    void* wsite[MAXT];
    void* rsite[MAXT];
    uint8_t wat, rat;                       // thread bits: last write/read was atomic
  };
  struct Table {
    Cell* cells = nullptr;
    size_t cap = 0, used = 0;
    void init() {
      cap = 1 << 16;
      used = 0;
      cells = (Cell*)__real_calloc(cap, sizeof(Cell));
    }
    void reset() { __real_free(cells); cells = nullptr; cap = used = 0; }
    static size_t hash(uintptr_t k) { return (size_t)((k * 0x9E3779B97F4A7C15ull) >> 20); }
    Cell* find(uintptr_t g) {
      uintptr_t k = g + 1;
      for (size_t i = hash(k) & (cap - 1); cells[i].key; i = (i + 1) & (cap - 1)) {
        if (cells[i].key == k) return &cells[i];
      }
      return nullptr;
    }
    Cell* get(uintptr_t g) {
      if (used * 2 > cap) grow();
      uintptr_t k = g + 1;
      size_t i = hash(k) & (cap - 1);
      while (cells[i].key && cells[i].key != k) i = (i + 1) & (cap - 1);
      if (!cells[i].key) { cells[i].key = k; used++; }
      return &cells[i];
    }
    void grow() {
      Cell* old = cells;
      size_t n = cap;
      cap *= 4;
      cells = (Cell*)__real_calloc(cap, sizeof(Cell));
      if (!cells) _exit(5);
      for (size_t i = 0; i < n; i++) {
        if (old[i].key) {
          size_t j = hash(old[i].key) & (cap - 1);
          while (cells[j].key) j = (j + 1) & (cap - 1);
          cells[j] = old[i];
        }
      }
      __real_free(old);
    }
    void forget(uintptr_t a, size_t n) {
      if (!cells || !n) return;
      uintptr_t g0 = a >> 3, g1 = (a + n - 1) >> 3;
      if (g1 - g0 > cap) {
        for (size_t i = 0; i < cap; i++) {
          if (cells[i].key && cells[i].key - 1 >= g0 && cells[i].key - 1 <= g1) wipe(&cells[i]);
        }
        return;
      }
      for (uintptr_t g = g0; g <= g1; g++) {
        Cell* c = find(g);
        if (c) wipe(c);
      }
    }
    static void wipe(Cell* c) { uintptr_t k = c->key; memset(c, 0, sizeof *c); c->key = k; }
  };
  Table g_shadow;

  struct SyncTable {                        // clocks of atomics, locks, guards
    struct E { uintptr_t a; VC v; };
    E* e = nullptr;
    size_t cap = 0, used = 0;
    void init() { cap = 1 << 12; used = 0; e = (E*)__real_calloc(cap, sizeof(E)); }
    void reset() { __real_free(e); e = nullptr; cap = used = 0; }
    VC* get(uintptr_t a) {
      if (used * 2 > cap) {
        E* old = e;
        size_t n = cap;
        cap *= 4;
        e = (E*)__real_calloc(cap, sizeof(E));
        for (size_t i = 0; i < n; i++) if (old[i].a) *slot(old[i].a) = old[i];
        __real_free(old);
      }
      E* s = slot(a);
      if (!s->a) { s->a = a; used++; }
      return &s->v;
    }
    E* slot(uintptr_t a) {
      size_t i = Table::hash(a) & (cap - 1);
      while (e[i].a && e[i].a != a) i = (i + 1) & (cap - 1);
      return &e[i];
    }
    void forget(uintptr_t a, size_t n) {
      if (!e || !n || !used) return;
      if (n > 4096) n = 4096;               // sync objects are small
      for (uintptr_t p = a & ~(uintptr_t)3; p < a + n; p++) {
        E* s = slot(p);
        if (s->a) memset(&s->v, 0, sizeof s->v);
      }
    }
  };
  SyncTable g_sync;

  inline void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

  // ------------------------------------------------------------ scheduling
  void mix(uint64_t x) { g_out->signature = (g_out->signature ^ x) * 0x100000001B3ull; }

  int someone(int from) {                   // next thread that can run, round robin
    for (int k = 1; k <= g_n; k++) {
      int t = 1 + (from - 1 + k) % g_n;
      if (!g_t[t].done && !g_t[t].blocked) return t;
    }
    return 0;
  }

  void give(int to) {                       // hand over the token and wait for it
    int me = t_me;
    g_run = 0;
    g_out->switches++;
    mix(g_out->events * 8 + to);
    sem_post(&g_t[to].go);
    while (sem_wait(&g_t[me].go) != 0) {}
  }

  void arm() {
    while (g_next < g_schedule->size()) {
      g_left = (*g_schedule)[g_next].gap;
      return;
    }
    g_left = 0;
  }

  void point() {                            // a preemption point
    g_out->events++;
    if (g_out->events > g_limit) {
      fprintf(stdout, "{\"overrun\": true, \"events\": %llu}\n", (unsigned long long)g_out->events);
      fflush(stdout);
      _exit(5);
    }
    if (++g_run > FAIR) {                   // a thread may be waiting in a loop for another
      g_run = 0;
      int t = someone(t_me);
      if (t && t != t_me) { give(t); return; }
    }
    if (g_next < g_schedule->size()) {
      if (g_left > 1) { g_left--; return; }
      int t = 1 + (*g_schedule)[g_next].thread % g_n;
      g_next++;
      arm();
      if (t == t_me || g_t[t].done || g_t[t].blocked) t = someone(t);
      if (t && t != t_me) give(t);
    }
  }

  void blocked_yield() {                    // wait for another thread's progress
    int me = t_me;
    g_t[me].blocked = true;
    int t = someone(me);
    if (!t) {
      // everyone waits: give each of them one more try, then it is a deadlock
      g_out->deadlock = true;
      fprintf(stdout, "{\"deadlock\": true, \"events\": %llu}\n", (unsigned long long)g_out->events);
      fflush(stdout);
      _exit(0);
    }
    give(t);
    g_t[me].blocked = false;
  }

  void wake() { for (int t = 1; t <= g_n; t++) g_t[t].blocked = false; }

  inline bool active() { return g_on && t_me != 0 && !t_in; }

  // ------------------------------------------------------------ detection
  std::string where(void* pc) {
    Dl_info i;
    char b[64];
    if (pc && dladdr(pc, &i)) {
      if (i.dli_sname) return i.dli_sname;
      snprintf(b, sizeof b, "+0x%lx", (unsigned long)((char*)pc - (char*)i.dli_fbase));
      return b;
    }
    return "?";
  }

  void race(const char* what, void* mine, void* other) {
    g_out->racy++;
    if (g_out->races.size() < 8) {
      std::string s = std::string(what) + " " + where(mine) + " | " + where(other);
      for (auto& x : g_out->races) if (x == s) return;
      g_out->races.push_back(s);
    }
  }

  void* site() {
    Thread& t = g_t[t_me];
    return t.depth ? t.site[(t.depth - 1) & 7] : nullptr;
  }

  void access(uintptr_t a, size_t n, bool write, bool atomic) {
    if (!active() || !n) return;
    Thread& me = g_t[t_me];
    if ((char*)a >= me.lo && (char*)a < me.hi) return;
    t_in++;
    point();
    int m = t_me;
    void* here = site();
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
      uintptr_t b0 = g << 3;
      int lo = a > b0 ? (int)(a - b0) : 0;
      int hi = a + n < b0 + 8 ? (int)(a + n - b0) : 8;
      uint8_t mask = (uint8_t)(((1 << hi) - 1) & ~((1 << lo) - 1));
      Cell* c = g_shadow.get(g);
      for (int t = 1; t <= g_n; t++) {
        if (t == m) continue;
        if ((c->wm[t] & mask) && c->w[t] > me.vc.c[t] && !(atomic && (c->wat >> t & 1))) {
          race(write ? "write/write" : "read/write", here, c->wsite[t]);
        }
        if (write && (c->rm[t] & mask) && c->r[t] > me.vc.c[t] && !(atomic && (c->rat >> t & 1))) {
          race("write/read", here, c->rsite[t]);
        }
      }
      if (write) {
        c->wm[m] = c->w[m] == me.vc.c[m] ? c->wm[m] | mask : mask;
        c->w[m] = me.vc.c[m];
        c->wsite[m] = here;
        c->wat = atomic ? c->wat | (1 << m) : c->wat & ~(1 << m);
      }
      else {
        c->rm[m] = c->r[m] == me.vc.c[m] ? c->rm[m] | mask : mask;
        c->r[m] = me.vc.c[m];
        c->rsite[m] = here;
        c->rat = atomic ? c->rat | (1 << m) : c->rat & ~(1 << m);
      }
    }
    t_in--;
  }

  enum { RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST };
  inline bool acq(int o) { o &= 0xff; return o == CONSUME || o == ACQUIRE || o == ACQ_REL || o == SEQ_CST; }
  inline bool rel(int o) { o &= 0xff; return o == RELEASE || o == ACQ_REL || o == SEQ_CST; }

  void acquire(uintptr_t a) {
    if (!active()) return;
    t_in++;
    join(g_t[t_me].vc, *g_sync.get(a));
    t_in--;
  }
  void release(uintptr_t a) {
    if (!active()) return;
    t_in++;
    join(*g_sync.get(a), g_t[t_me].vc);
    g_t[t_me].vc.c[t_me]++;
    t_in--;
  }

  void fresh(void* p, size_t n) {
    if (!g_on || !p) return;
    t_in++;
    g_shadow.forget((uintptr_t)p, n);
    g_sync.forget((uintptr_t)p, n);
    t_in--;
  }

  void* body(void* arg) {
    int me = (int)(intptr_t)arg;
    t_me = me;
    while (sem_wait(&g_t[me].go) != 0) {}
    (*g_t[me].f)();
    t_in++;
    g_t[me].done = true;
    wake();
    int t = someone(me);
    mix(g_out->events * 8 + t);
    if (t) sem_post(&g_t[t].go);
    else sem_post(&g_over);
    return nullptr;
  }
}

namespace nsim {
  Outcome run(const std::vector<std::function<void()>>& threads, const std::vector<Preempt>& schedule, uint64_t limit) {
    Outcome out;
    g_limit = limit;
    g_run = 0;
    g_out = &out;
    g_schedule = &schedule;
    g_next = 0;
    arm();
    g_n = (int)threads.size();
    g_shadow.init();
    g_sync.init();
    sem_init(&g_over, 0, 0);
    for (int t = 1; t <= g_n; t++) {
      Thread& x = g_t[t];
      x.f = &threads[t - 1];
      memset(&x.vc, 0, sizeof x.vc);
      x.vc.c[t] = 1;
      x.done = x.blocked = false;
      x.depth = 0;
      sem_init(&x.go, 0, 0);
      x.lo = (char*)aligned_alloc(4096, STACK);
      x.hi = x.lo + STACK;
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstack(&at, x.lo, STACK);
      if (pthread_create(&x.id, &at, body, (void*)(intptr_t)t) != 0) abort();
      pthread_attr_destroy(&at);
    }
    g_on = true;
    sem_post(&g_t[1].go);
    while (sem_wait(&g_over) != 0) {}
    for (int t = 1; t <= g_n; t++) {
      pthread_join(g_t[t].id, nullptr);
      free(g_t[t].lo);
    }
    g_on = false;
    g_shadow.reset();
    g_sync.reset();
    return out;
  }
}

// ---------------------------------------------------------------- instrumentation
#define API extern "C" __attribute__((visibility("default"), used))
typedef uintptr_t A;

API void __tsan_init() {}
API void __tsan_func_entry(void* pc) {
  if (active()) {
    Thread& t = g_t[t_me];
    // the return address lies in the caller; keep the callee, found when an access is reported
    t.site[t.depth & 7] = __builtin_return_address(0);
    t.depth++;
  }
}
API void __tsan_func_exit() { if (active() && g_t[t_me].depth) g_t[t_me].depth--; }
#define RW(n) \
  API void __tsan_read##n(A a) { access(a, n, false, false); } \
  API void __tsan_write##n(A a) { access(a, n, true, false); } \
  API void __tsan_volatile_read##n(A a) { access(a, n, false, false); } \
  API void __tsan_volatile_write##n(A a) { access(a, n, true, false); } \
  API void __tsan_unaligned_read##n(A a) { access(a, n, false, false); } \
  API void __tsan_unaligned_write##n(A a) { access(a, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(A a, size_t n) { access(a, n, false, false); }
API void __tsan_write_range(A a, size_t n) { access(a, n, true, false); }
API void __tsan_vptr_update(A a, void* v) {
  // writing the value that is there already is what every constructor level does
  if (*(void**)a != v) access(a, 8, true, false);
}
API void __tsan_vptr_read(A a) { access(a, 8, false, false); }

#define ATOMIC(bits, T) \
  API T __tsan_atomic##bits##_load(const volatile T* p, int o) { \
    access((A)p, sizeof(T), false, true); T v = *p; if (acq(o)) acquire((A)p); return v; } \
  API void __tsan_atomic##bits##_store(volatile T* p, T v, int o) { \
    access((A)p, sizeof(T), true, true); if (rel(o)) release((A)p); *p = v; } \
  API T __tsan_atomic##bits##_exchange(volatile T* p, T v, int o) { \
    access((A)p, sizeof(T), true, true); if (acq(o)) acquire((A)p); if (rel(o)) release((A)p); T x = *p; *p = v; return x; } \
  API T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int o) { \
    access((A)p, sizeof(T), true, true); if (acq(o)) acquire((A)p); if (rel(o)) release((A)p); T x = *p; *p = (T)(x + v); return x; } \
  API T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int o) { \
    access((A)p, sizeof(T), true, true); if (acq(o)) acquire((A)p); if (rel(o)) release((A)p); T x = *p; *p = (T)(x - v); return x; } \
  API T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int o) { \
    access((A)p, sizeof(T), true, true); if (acq(o)) acquire((A)p); if (rel(o)) release((A)p); T x = *p; *p = (T)(x & v); return x; } \
  API T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int o) { \
    access((A)p, sizeof(T), true, true); if (acq(o)) acquire((A)p); if (rel(o)) release((A)p); T x = *p; *p = (T)(x | v); return x; } \
  API T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int o) { \
    access((A)p, sizeof(T), true, true); if (acq(o)) acquire((A)p); if (rel(o)) release((A)p); T x = *p; *p = (T)(x ^ v); return x; } \
  API T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int o) { \
    access((A)p, sizeof(T), true, true); if (acq(o)) acquire((A)p); if (rel(o)) release((A)p); T x = *p; *p = (T)~(x & v); return x; } \
  API int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int o, int f) { \
    bool hit = *p == *c; access((A)p, sizeof(T), true, true); hit = *p == *c; \
    if (acq(hit ? o : f)) acquire((A)p); \
    if (hit) { if (rel(o)) release((A)p); *p = v; return 1; } *c = *p; return 0; } \
  API int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int o, int f) { \
    return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, o, f); } \
  API T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int o, int f) { \
    T x = c; __tsan_atomic##bits##_compare_exchange_strong(p, &x, v, o, f); return x; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
static uint64_t g_fence;
API void __tsan_atomic_thread_fence(int o) { acquire((A)&g_fence); release((A)&g_fence); }
API void __tsan_atomic_signal_fence(int o) {}

// ---------------------------------------------------------------- memory
API void* __real_memcpy(void*, const void*, size_t);
API void* __real_memmove(void*, const void*, size_t);
API void* __real_memset(void*, int, size_t);
API void* __wrap_memcpy(void* d, const void* s, size_t n) {
  access((A)s, n, false, false); access((A)d, n, true, false); return __real_memcpy(d, s, n); }
API void* __wrap_memmove(void* d, const void* s, size_t n) {
  access((A)s, n, false, false); access((A)d, n, true, false); return __real_memmove(d, s, n); }
API void* __wrap_memset(void* d, int c, size_t n) {
  access((A)d, n, true, false); return __real_memset(d, c, n); }

extern "C" size_t malloc_usable_size(void*);
API void* __real_malloc(size_t);
API void* __real_calloc(size_t, size_t);
API void* __real_realloc(void*, size_t);
API void __real_free(void*);
API void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); fresh(p, n); return p; }
API void* __wrap_calloc(size_t k, size_t n) { void* p = __real_calloc(k, n); fresh(p, k * n); return p; }
API void __wrap_free(void* p) {
  if (p && g_on) {
    size_t n = malloc_usable_size(p);
    access((A)p, n > 64 ? 64 : n, true, false);     // freeing conflicts with any use
    fresh(p, n);
  }
  __real_free(p);
}
API void* __wrap_realloc(void* p, size_t n) {
  if (p && g_on) fresh(p, malloc_usable_size(p));
  void* q = __real_realloc(p, n);
  fresh(q, n);
  return q;
}
static void* grab(size_t n) {
  void* p = g_on && n > nsim::BIGGEST ? nullptr : __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  fresh(p, n);
  return p;
}
void* operator new(size_t n) { return grab(n); }
void* operator new[](size_t n) { return grab(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }

API void* __real___cxa_allocate_exception(size_t);
API void* __wrap___cxa_allocate_exception(size_t n) {
  void* p = __real___cxa_allocate_exception(n);
  fresh(p, n);
  return p;
}

// ---------------------------------------------------------------- locks
API int __real_pthread_mutex_lock(pthread_mutex_t*);
API int __real_pthread_mutex_trylock(pthread_mutex_t*);
API int __real_pthread_mutex_unlock(pthread_mutex_t*);
API int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active()) return __real_pthread_mutex_lock(m);
  t_in++;
  point();
  int r;
  while ((r = __real_pthread_mutex_trylock(m)) == EBUSY) blocked_yield();
  t_in--;
  if (r == 0) acquire((A)m);
  return r;
}
API int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (active()) { t_in++; point(); t_in--; }
  int r = __real_pthread_mutex_trylock(m);
  if (r == 0) acquire((A)m);
  return r;
}
API int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  release((A)m);
  int r = __real_pthread_mutex_unlock(m);
  if (active()) { t_in++; wake(); point(); t_in--; }
  return r;
}
API int __real_pthread_once(pthread_once_t*, void (*)());
API int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  if (!active()) return __real_pthread_once(o, f);
  static std::map<pthread_once_t*, int>* state = new std::map<pthread_once_t*, int>();
  t_in++;
  point();
  while ((*state)[o] == 1) blocked_yield();
  bool first = (*state)[o] == 0 && *(int*)o == 0;
  if (first) (*state)[o] = 1;
  t_in--;
  if (first) {
    __real_pthread_once(o, f);
    release((A)o);
    t_in++;
    (*state)[o] = 2;
    wake();
    t_in--;
  }
  else acquire((A)o);
  return 0;
}

// Static initialisation: as the ABI has it, with the waiting left to the simulator.
API int __cxa_guard_acquire(long long int* w) {
  uint8_t* g = (uint8_t*)w;
  if (active()) { t_in++; point(); t_in--; }
  if (g[0]) { acquire((A)g); return 0; }
  while (g[1]) {
    if (!active()) abort();
    t_in++;
    blocked_yield();
    t_in--;
    if (g[0]) { acquire((A)g); return 0; }
  }
  g[1] = 1;
  return 1;
}
API void __cxa_guard_release(long long int* w) {
  uint8_t* g = (uint8_t*)w;
  release((A)g);
  g[0] = 1;
  g[1] = 0;
  if (active()) { t_in++; wake(); t_in--; }
}
API void __cxa_guard_abort(long long int* w) {
  uint8_t* g = (uint8_t*)w;
  g[1] = 0;
  if (active()) { t_in++; wake(); t_in--; }
}
