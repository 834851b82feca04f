// Preloaded into the simulated Python process.  Owns two seams:
//   * the allocator used for array buffers (operator new[] / delete[]): seeded
//     failures, junk-filled fresh memory, poisoned + quarantined freed memory, ledger;
//   * stdio files opened under registered simulated names (fopen -> fopencookie):
//     partial reads/writes, EINTR, EIO, ENOSPC, failing close.
// Everything is driven from Python through the extern "C" vs_* functions; nothing
// here draws random numbers or reads a clock.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sys/types.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

// ---------------------------------------------------------------- allocator
namespace {
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  struct Lock { Lock() { pthread_mutex_lock(&mu); } ~Lock() { pthread_mutex_unlock(&mu); } };

  // settings
  bool g_arr_count = false;      // count new[] calls
  long g_seen = 0;               // new[] calls since arm
  long g_fail_at = -1;           // fail when g_seen reaches this (1-based)
  long g_fail_len = 1;           // how many consecutive calls fail
  size_t g_min_size = 0;         // only calls at least this large count
  bool g_scalar = false;         // operator new (non-array) counts too
  long g_failed = 0;             // failures delivered
  int g_junk = -1;               // fill byte for fresh memory (-1: off)
  int g_poison = -1;             // fill byte for freed memory (-1: off)
  size_t g_quar_max = 0;         // number of freed blocks kept back
  long g_damage = 0;             // quarantined blocks found modified
  long g_doublefree = 0;
  long g_freed = 0;
  bool g_track = false;
  long g_live = 0;
  long g_scribbles = 0;

  struct Q { unsigned char* p; size_t n; };
  const size_t QCAP = 4096;
  Q quar[QCAP];
  size_t qhead = 0, qlen = 0;

  void check_and_release(Q q) {
    for (size_t i = 0; i < q.n; i++) {
      if (q.p[i] != (unsigned char)g_poison) { g_damage++; break; }
    }
    std::free(q.p);
  }

  const unsigned char CANARY = 0xC7;
  bool should_fail(size_t n) {
    if (!g_arr_count || n < g_min_size) return false;
    g_seen++;
    if (g_fail_at > 0 && g_seen >= g_fail_at && g_seen < g_fail_at + g_fail_len) {
      g_failed++;
      return true;
    }
    return false;
  }
}

EXPORT void vs_alloc_arm(long fail_at, long fail_len, long min_size, int scalar) {
  Lock l; g_arr_count = true; g_seen = 0; g_fail_at = fail_at; g_fail_len = fail_len;
  g_min_size = (size_t)min_size; g_scalar = scalar != 0; g_failed = 0;
}
EXPORT void vs_alloc_disarm() { Lock l; g_arr_count = false; g_fail_at = -1; g_scalar = false; }
EXPORT long vs_alloc_seen() { return g_seen; }
EXPORT long vs_alloc_failed() { return g_failed; }
EXPORT long vs_alloc_live() { return g_live; }
EXPORT long vs_alloc_freed() { return g_freed; }
EXPORT long vs_alloc_damage() { return g_damage; }
EXPORT long vs_alloc_doublefree() { return g_doublefree; }
EXPORT void vs_alloc_junk(int byte) { Lock l; g_junk = byte; }
EXPORT void vs_alloc_poison(int byte, long keep) {
  Lock l;
  while (qlen > 0) { Q q = quar[qhead]; qhead = (qhead + 1) % QCAP; qlen--; check_and_release(q); }
  g_poison = byte; g_quar_max = keep > (long)QCAP ? QCAP : (size_t)keep;
}
EXPORT long vs_alloc_flush() {  // release the quarantine; returns damaged blocks seen so far
  Lock l;
  while (qlen > 0) { Q q = quar[qhead]; qhead = (qhead + 1) % QCAP; qlen--; check_and_release(q); }
  return g_damage;
}

void* operator new[](size_t n) {
  void* p;
  {
    Lock l;
    if (should_fail(n)) { p = nullptr; }
    else {
      p = std::malloc(n == 0 ? 1 : n);
      if (p != nullptr) { g_live++; if (g_junk >= 0) memset(p, g_junk, n); }
    }
  }
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  Lock l;
  if (should_fail(n)) return nullptr;
  void* p = std::malloc(n == 0 ? 1 : n);
  if (p != nullptr) { g_live++; if (g_junk >= 0) memset(p, g_junk, n); }
  return p;
}
void operator delete[](void* p) noexcept {
  if (p == nullptr) return;
  Lock l;
  g_live--; g_freed++;
  if (g_poison >= 0) {
    for (size_t i = 0; i < qlen; i++) {
      if (quar[(qhead + i) % QCAP].p == (unsigned char*)p) { g_doublefree++; g_live++; g_freed--; return; }
    }
    size_t n = malloc_usable_size(p);
    memset(p, g_poison, n);
    if (g_quar_max > 0) {
      if (qlen == g_quar_max) { Q q = quar[qhead]; qhead = (qhead + 1) % QCAP; qlen--; check_and_release(q); }
      quar[(qhead + qlen) % QCAP] = Q{(unsigned char*)p, n}; qlen++;
      return;
    }
  }
  std::free(p);
}
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete[](p); }

void* operator new(size_t n) {
  void* p;
  if (g_scalar) {
    bool f;
    { Lock l; f = g_scalar && should_fail(n); }
    if (f) throw std::bad_alloc();
  }
  p = std::malloc(n == 0 ? 1 : n);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }

// ---------------------------------------------------------------- simulated files
// One simulated file at a time per slot; names are matched exactly.
namespace {
  struct Ev { int kind; long arg; };   // kind 0: transfer at most arg bytes; 1: EINTR; 2: EIO; 3: ENOSPC
  const int MAXF = 8;
  struct SimFile {
    char name[512];
    bool used;
    char* data; size_t size, cap;
    size_t limit;            // disk capacity (bytes) for writes
    Ev* evs; int nev; int iev;   // consumed one per read/write call; when exhausted: unlimited transfers
    int open_errno;          // fopen fails with this
    int close_errno;         // close fails with this
    int opens, closes;
    long nread, nwrite, fired[8];
    size_t pos;
  };
  SimFile files[MAXF];

  ssize_t c_read(void* ck, char* buf, size_t n) {
    SimFile* f = (SimFile*)ck;
    f->nread++;
    size_t lim = n;
    if (f->iev < f->nev) {
      Ev e = f->evs[f->iev++];
      if (e.kind == 1) { f->fired[1]++; errno = EINTR; return -1; }
      if (e.kind == 2) { f->fired[2]++; errno = EIO; return -1; }
      if (e.arg > 0 && (size_t)e.arg < lim) { lim = (size_t)e.arg; f->fired[0]++; }
    }
    size_t avail = f->size > f->pos ? f->size - f->pos : 0;
    if (lim > avail) lim = avail;
    memcpy(buf, f->data + f->pos, lim);
    f->pos += lim;
    return (ssize_t)lim;
  }
  ssize_t one_write(SimFile* f, const char* buf, size_t n) {   // one simulated write(2)
    f->nwrite++;
    size_t lim = n;
    if (f->iev < f->nev) {
      Ev e = f->evs[f->iev++];
      if (e.kind == 1) { f->fired[1]++; errno = EINTR; return -1; }
      if (e.kind == 2) { f->fired[2]++; errno = EIO; return -1; }
      if (e.kind == 3) { f->fired[3]++; errno = ENOSPC; return -1; }
      if (e.arg > 0 && (size_t)e.arg < lim) { lim = (size_t)e.arg; f->fired[0]++; }
    }
    if (f->pos + lim > f->limit) {
      f->fired[3]++;
      lim = f->limit > f->pos ? f->limit - f->pos : 0;
      if (lim == 0) { errno = ENOSPC; return -1; }
    }
    if (f->pos + lim > f->cap) {
      size_t nc = (f->pos + lim) * 2 + 64;
      f->data = (char*)std::realloc(f->data, nc); f->cap = nc;
    }
    memcpy(f->data + f->pos, buf, lim);
    f->pos += lim;
    if (f->pos > f->size) f->size = f->pos;
    return (ssize_t)lim;
  }
  // stdio on a real file repeats write(2) after a short count and gives up on an error;
  // on a cookie a short count is an error, so the repetition is done here
  ssize_t c_write(void* ck, const char* buf, size_t n) {
    SimFile* f = (SimFile*)ck;
    size_t done = 0;
    while (done < n) {
      ssize_t r = one_write(f, buf + done, n - done);
      if (r < 0) break;
      done += (size_t)r;
    }
    return (ssize_t)done;
  }
  int c_seek(void* ck, off64_t* off, int whence) {
    SimFile* f = (SimFile*)ck;
    off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)f->pos : (off64_t)f->size;
    off64_t np = base + *off;
    if (np < 0) { errno = EINVAL; return -1; }
    f->pos = (size_t)np; *off = np; return 0;
  }
  int c_close(void* ck) {
    SimFile* f = (SimFile*)ck;
    f->closes++;
    if (f->close_errno) { f->fired[4]++; errno = f->close_errno; return -1; }
    return 0;
  }
  SimFile* find(const char* name) {
    for (int i = 0; i < MAXF; i++) if (files[i].used && strcmp(files[i].name, name) == 0) return &files[i];
    return nullptr;
  }
  FILE* sim_open(SimFile* f, const char* mode) {
    if (f->open_errno) { f->fired[5]++; errno = f->open_errno; return nullptr; }
    cookie_io_functions_t io = {c_read, c_write, c_seek, c_close};
    if (mode[0] == 'w') { f->size = 0; }
    f->pos = mode[0] == 'a' ? f->size : 0;
    f->opens++;
    return fopencookie(f, mode, io);
  }
}
EXPORT int vs_file_set(const char* name, const char* data, long size, long limit, const long* evs, int nev,
                       int open_errno, int close_errno) {
  SimFile* f = find(name);
  if (!f) for (int i = 0; i < MAXF; i++) if (!files[i].used) { f = &files[i]; break; }
  if (!f) return -1;
  std::free(f->data); std::free(f->evs);
  memset(f, 0, sizeof *f);
  f->used = true; strncpy(f->name, name, sizeof f->name - 1);
  f->cap = (size_t)size + 1; f->data = (char*)std::malloc(f->cap); memcpy(f->data, data, (size_t)size); f->size = (size_t)size;
  f->limit = limit < 0 ? (size_t)-1 : (size_t)limit;
  f->nev = nev; f->evs = (Ev*)std::malloc(sizeof(Ev) * (size_t)(nev + 1));
  for (int i = 0; i < nev; i++) { f->evs[i].kind = (int)evs[2 * i]; f->evs[i].arg = evs[2 * i + 1]; }
  f->open_errno = open_errno; f->close_errno = close_errno;
  return 0;
}
EXPORT long vs_file_size(const char* name) { SimFile* f = find(name); return f ? (long)f->size : -1; }
EXPORT void vs_file_get(const char* name, char* out) { SimFile* f = find(name); if (f) memcpy(out, f->data, f->size); }
EXPORT long vs_file_stat(const char* name, int what) {
  SimFile* f = find(name);
  if (!f) return -1;
  if (what < 8) return f->fired[what];
  switch (what) { case 8: return f->opens; case 9: return f->closes; case 10: return f->nread; case 11: return f->nwrite; case 12: return f->pos; }
  return -1;
}
EXPORT void vs_file_clear(const char* name) {
  SimFile* f = find(name);
  if (f) { std::free(f->data); std::free(f->evs); memset(f, 0, sizeof *f); }
}
typedef FILE* (*fopen_t)(const char*, const char*);
EXPORT FILE* fopen(const char* path, const char* mode) {
  static fopen_t real = nullptr;
  if (SimFile* f = find(path)) return sim_open(f, mode);
  if (!real) real = (fopen_t)dlsym(RTLD_NEXT, "fopen");
  return real(path, mode);
}
EXPORT FILE* fopen64(const char* path, const char* mode) {
  static fopen_t real = nullptr;
  if (SimFile* f = find(path)) return sim_open(f, mode);
  if (!real) real = (fopen_t)dlsym(RTLD_NEXT, "fopen64");
  return real(path, mode);
}
EXPORT int vs_present() { return 1; }
