// Run-time of -fsanitize=thread (the compiler's instrumentation only): instead
// of watching threads, it watches one call and records every access to memory
// that another call could reach.  An execution owns its stack, the memory it
// allocates (an arena per execution, never reused while it runs) and thread
// local variables.  Static variables of the program, memory allocated by
// static initialisers, under the guard of a static variable or by the previous
// execution are shared.  Writes to shared memory have to be atomic, guarded
// (once) or protected by a lock common to all accesses: otherwise the call
// races with itself in another thread.
#include "race.h"
#include <dlfcn.h>
#include <fenv.h>
#include <locale.h>
#include <malloc.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <time.h>
#include <unistd.h>
#include <iostream>
#include <new>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
extern char __data_start, _end;
}

namespace {
const size_t ARENA = 256u << 20;
const int NBLOCK = 8192, NSHARED = 1 << 16, NLOCK = 8;
const uint32_t NLIVE = 1 << 21, NHASH = 1 << 22;
struct Granule {
  uintptr_t a;
  uint8_t written, nlock;
  void *lock[NLOCK];
};
struct State {  // not in a static variable: those are compared
  bool main, on;
  int guard;  // nested once-only initialisations
  bool once;
  uintptr_t base;
  char *arena[2];
  size_t used[2];
  int cur;
  struct { uintptr_t b, e; } block[NBLOCK];
  int nblock;
  uintptr_t low, high;  // of the blocks
  Granule shared[NSHARED];
  // allocated by an execution which is not monitored
  bool track;
  uint32_t nlive, generation;
  struct { uintptr_t b; size_t n; } live[NLIVE];
  struct { uintptr_t b; uint32_t i, generation; } hash[NHASH];
  void *held[NLOCK];
  int nheld;
  char problem[400];
  uint64_t acc, rd, wr, obs;
  char *snap;
  bool upward;
};
State *R;
__attribute__((constructor(101))) void make() {
  if (R) return;
  State *s = (State *)mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (auto &a : s->arena) a = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  R = s;
}
inline uintptr_t dataBegin() { return (uintptr_t)&__data_start; }
inline uintptr_t dataEnd() { return (uintptr_t)&_end; }

void report(const char *fmt, ...) {
  if (R->problem[0]) return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->problem, sizeof R->problem, fmt, ap);
  va_end(ap);
}

// concurrent use of the standard streams is no race (C++ [iostream.objects])
bool standardStream(uintptr_t a) {
  for (auto *o : {(std::ostream *)&std::cout, &std::cerr, &std::clog})
    if (a >= (uintptr_t)o && a < (uintptr_t)(o + 1)) return true;
  return a >= (uintptr_t)&std::cin && a < (uintptr_t)(&std::cin + 1);
}
bool isShared(uintptr_t a) {
  if (standardStream(a)) return false;
  if (a >= dataBegin() && a < dataEnd()) return true;
  uintptr_t o = (uintptr_t)R->arena[1 - R->cur];
  if (a >= o && a < o + ARENA) return true;
  if (a >= R->low && a < R->high)
   for (int i = 0; i < R->nblock; ++i)
    if (a >= R->block[i].b && a < R->block[i].e) return true;
  return false;
}

void access(uintptr_t a, size_t n, bool write, void *pc) {
  if (!R || !R->on) return;
  ++R->acc;
  if (a <= R->base && a + (64u << 20) > R->base) return;  // own stack
  uintptr_t m = (uintptr_t)R->arena[R->cur];
  if (a >= m && a < m + ARENA) return;  // own heap
  if (!isShared(a)) return;             // thread local, or of the harness
  if (R->guard) return;                 // initialised once
  if (write) ++R->wr; else ++R->rd;
  for (uintptr_t g = a & ~7ull; g < a + n; g += 8) {
    size_t i = (g >> 3) * 0x9E3779B97F4A7C15ull >> 40 & (NSHARED - 1);
    int probe = 0;
    while (R->shared[i].a && R->shared[i].a != g && probe++ < 1000) i = (i + 1) & (NSHARED - 1);
    Granule &s = R->shared[i];
    if (s.a != g) {
      if (s.a) continue;  // table full
      s.a = g;
      s.written = 0;
      s.nlock = (uint8_t)R->nheld;
      for (int k = 0; k < R->nheld; ++k) s.lock[k] = R->held[k];
    } else {
      int keep = 0;
      for (int k = 0; k < s.nlock; ++k)
        for (int h = 0; h < R->nheld; ++h)
          if (R->held[h] == s.lock[k]) { s.lock[keep++] = s.lock[k]; break; }
      s.nlock = (uint8_t)keep;
    }
    if (write) s.written = 1;
    if (s.written && !s.nlock)
      report("%s of shared memory at %p (%s) by the code at %p, which another call may %s at the same time",
             write ? "unprotected write" : "unprotected read", (void *)a,
             a >= dataBegin() && a < dataEnd() ? "static variable" : "memory kept from earlier", pc,
             write ? "read or write" : "write");
  }
}
template <class F> F next(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
void hidden(const char *what) {
  if (R && R->on) report("call of %s, which changes or uses the state of the whole process", what);
}
// the static variables may be changed by who synchronises
void synchronises(uintptr_t a) {
  if (R && R->on && isShared(a)) R->once = true;
}
void lock(void *m) {
  synchronises((uintptr_t)m);
  if (R && R->on && R->nheld < NLOCK) R->held[R->nheld++] = m;
}
void unlock(void *m) {
  if (!R || !R->on) return;
  for (int i = R->nheld - 1; i >= 0; --i)
    if (R->held[i] == m) {
      for (; i + 1 < R->nheld; ++i) R->held[i] = R->held[i + 1];
      --R->nheld;
      return;
    }
}
bool own(void *p) {
  for (auto a : R->arena)
    if ((char *)p >= a && (char *)p < a + ARENA) return true;
  return false;
}
void addBlock(uintptr_t p, size_t n) {
  if (R->nblock == NBLOCK) return;
  if (!R->low || p < R->low) R->low = p;
  if (p + n > R->high) R->high = p + n;
  R->block[R->nblock].b = p;
  R->block[R->nblock++].e = p + n;
}
uint32_t slot(uintptr_t p) { return (uint32_t)((p >> 4) * 0x9E3779B97F4A7C15ull >> 42); }
void *allocate(size_t n, size_t al) {
  if (!R) make();
  if (R->on && !R->guard) {
    size_t &u = R->used[R->cur];
    size_t b = (u + 16 + al - 1) & ~(al - 1);
    if (b + n <= ARENA) {
      char *p = R->arena[R->cur] + b;
      *(size_t *)(p - 8) = n;
      u = b + n;
      memset(p, 0xA5, n);
      return p;
    }
  }
  void *p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
  if (!p) return p;
  if (!R->main || R->guard)
    addBlock((uintptr_t)p, n);
  else if (R->track && R->nlive < NLIVE) {
    uint32_t h = slot((uintptr_t)p);
    while (R->hash[h].generation == R->generation && R->hash[h].b != (uintptr_t)p) h = (h + 1) & (NHASH - 1);
    R->hash[h].b = (uintptr_t)p;
    R->hash[h].i = R->nlive;
    R->hash[h].generation = R->generation;
    R->live[R->nlive].b = (uintptr_t)p;
    R->live[R->nlive++].n = n;
  }
  return p;
}
}  // namespace

namespace race {
void started() {
  R->main = true;
  __libc_single_threaded = 0;  // reference counts are atomic
}
void warm(bool on) {
  if (on) {
    R->nlive = 0;
    ++R->generation;
    R->track = true;
    return;
  }
  R->track = false;
  for (uint32_t i = 0; i < R->nlive; ++i)
    if (R->live[i].b) addBlock(R->live[i].b, R->live[i].n);
}
void begin(void *base, bool again) {
  R->base = (uintptr_t)base;
  if (!again) R->cur = 1 - R->cur;
  R->used[R->cur] = 0;
  R->nheld = R->guard = 0;
  R->on = true;
}
void end() {
  R->on = false;
  const int mode = R->upward ? FE_UPWARD : FE_TONEAREST;
  if (fegetround() != mode) { report("the rounding mode was changed"); fesetround(mode); }
  unsigned csr = __builtin_ia32_stmxcsr(), want = R->upward ? 0x1F80 | 0x4000 : 0x1F80;
  if ((csr & 0xFFC0) != want) { report("the floating-point environment was changed (%#x)", csr); __builtin_ia32_ldmxcsr(want); }
  const char *l = setlocale(LC_ALL, nullptr);
  if (!l || strcmp(l, "C")) report("the locale was changed");
}
void upward(bool on) {
  R->upward = on;
  fesetround(on ? FE_UPWARD : FE_TONEAREST);
}
const char *problem() { return R->problem[0] ? R->problem : nullptr; }
void forget() {
  R->problem[0] = 0;
  memset(R->shared, 0, sizeof R->shared);
}
void snapshot() {
  size_t n = dataEnd() - dataBegin();
  if (!R->snap) R->snap = (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memcpy(R->snap, (void *)dataBegin(), n);
  R->once = false;
}
bool unchanged() {
  size_t n = dataEnd() - dataBegin();
  if (!memcmp(R->snap, (void *)dataBegin(), n)) return true;
  size_t i = 0;
  while (R->snap[i] == ((char *)dataBegin())[i]) ++i;
  if (!R->once) report("the static variable at %p was changed", (void *)(dataBegin() + i));
  return false;
}
bool once() { return R->once; }
void observe(uint64_t v) {
  v ^= v >> 31;
  v *= 0x9E3779B97F4A7C15ull;
  R->obs = (R->obs ^ v) * 0xBF58476D1CE4E5B9ull;
  R->obs ^= R->obs >> 29;
}
uint64_t observed() { uint64_t o = R->obs; R->obs = 0; return o; }
uint64_t accesses() { return R->acc; }
uint64_t sharedReads() { return R->rd; }
uint64_t sharedWrites() { return R->wr; }
}  // namespace race

#define PC __builtin_return_address(0)
extern "C" {
// ---- memory
void *malloc(size_t n) { return allocate(n, 16); }
void *calloc(size_t n, size_t k) {
  if (R && R->on && !R->guard) { void *p = allocate(n * k, 16); memset(p, 0, n * k); return p; }
  void *p = malloc(n * k);
  if (p) memset(p, 0, n * k);
  return p;
}
void free(void *p) {
  if (!p || (R && own(p))) return;
  if (R) {
    uintptr_t a = (uintptr_t)p;
    if (a >= R->low && a < R->high)
      for (int i = 0; i < R->nblock; ++i)
        if (R->block[i].b == a) { R->block[i] = R->block[--R->nblock]; break; }
    if (R->track)
      for (uint32_t h = slot(a); R->hash[h].generation == R->generation; h = (h + 1) & (NHASH - 1))
        if (R->hash[h].b == a) { R->live[R->hash[h].i].b = 0; R->hash[h].b = 1; break; }
  }
  __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (R && own(p)) {
    void *q = malloc(n);
    size_t o = ((size_t *)p)[-1];
    memcpy(q, p, o < n ? o : n);
    return q;
  }
  void *q = malloc(n);
  size_t o = malloc_usable_size(p);
  if (q) memcpy(q, p, o < n ? o : n);
  free(p);
  return q;
}
void *memalign(size_t al, size_t n) { return allocate(n, al < 16 ? 16 : al); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **p, size_t al, size_t n) { *p = memalign(al, n); return 0; }

// ---- accesses
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(S, N) \
  void __tsan_read##S(void *a) { access((uintptr_t)a, N, false, PC); } \
  void __tsan_write##S(void *a) { access((uintptr_t)a, N, true, PC); } \
  void __tsan_unaligned_read##S(void *a) { access((uintptr_t)a, N, false, PC); } \
  void __tsan_unaligned_write##S(void *a) { access((uintptr_t)a, N, true, PC); } \
  void __tsan_volatile_read##S(void *a) { access((uintptr_t)a, N, false, PC); } \
  void __tsan_volatile_write##S(void *a) { access((uintptr_t)a, N, true, PC); }
RW(1, 1) RW(2, 2) RW(4, 4) RW(8, 8) RW(16, 16)
void __tsan_read_range(void *a, size_t n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access((uintptr_t)a, 8, true, PC); }
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access((uintptr_t)d, n, true, PC); return __real_memset(d, c, n); }

// ---- atomic operations synchronise
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int) { return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int) { synchronises((uintptr_t)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { synchronises((uintptr_t)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { synchronises((uintptr_t)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { synchronises((uintptr_t)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { synchronises((uintptr_t)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { synchronises((uintptr_t)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { synchronises((uintptr_t)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { synchronises((uintptr_t)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { synchronises((uintptr_t)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { synchronises((uintptr_t)a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- once-only initialisation and locks
int __cxa_guard_acquire(uint64_t *g) {
  if (*(char *)g) return 0;
  if (!R) make();
  ++R->guard;
  R->once = true;
  return 1;
}
void __cxa_guard_release(uint64_t *g) { *(char *)g = 1; --R->guard; }
void __cxa_guard_abort(uint64_t *) { --R->guard; }
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  typedef int (*F)(pthread_once_t *, void (*)(void));
  F real = next<F>("pthread_once");
  if (!R) make();
  ++R->guard;
  int r = real(o, f);
  --R->guard;
  R->once = R->once || R->on;
  return r;
}
#define LOCK(NAME, T, ACT) \
  int NAME(T *m) { \
    typedef int (*F)(T *); \
    F real = next<F>(#NAME); \
    int r = real(m); \
    if (!r) ACT((void *)m); \
    return r; \
  }
LOCK(pthread_mutex_lock, pthread_mutex_t, lock)
LOCK(pthread_mutex_trylock, pthread_mutex_t, lock)
LOCK(pthread_mutex_unlock, pthread_mutex_t, unlock)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_t, lock)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_t, lock)
LOCK(pthread_rwlock_unlock, pthread_rwlock_t, unlock)
LOCK(pthread_spin_lock, pthread_spinlock_t, lock)
LOCK(pthread_spin_unlock, pthread_spinlock_t, unlock)

// ---- functions with a state of their own
char *setlocale(int c, const char *l) {
  typedef char *(*F)(int, const char *);
  F real = next<F>("setlocale");
  if (l) hidden("setlocale");
  return real(c, l);
}
#define HIDDEN(RET, NAME, PAR, ARG) \
  RET NAME PAR { \
    typedef RET(*F) PAR; \
    F real = next<F>(#NAME); \
    hidden(#NAME); \
    return real ARG; \
  }
HIDDEN(int, setenv, (const char *a, const char *b, int c), (a, b, c))
HIDDEN(int, unsetenv, (const char *a), (a))
HIDDEN(int, putenv, (char *a), (a))
HIDDEN(int, rand, (), ())
HIDDEN(void, srand, (unsigned s), (s))
HIDDEN(long, random, (), ())
HIDDEN(double, drand48, (), ())
HIDDEN(char *, strtok, (char *a, const char *b), (a, b))
HIDDEN(struct tm *, localtime, (const time_t *t), (t))
HIDDEN(struct tm *, gmtime, (const time_t *t), (t))
HIDDEN(char *, asctime, (const struct tm *t), (t))
HIDDEN(char *, ctime, (const time_t *t), (t))
HIDDEN(char *, tmpnam, (char *a), (a))
HIDDEN(int, chdir, (const char *a), (a))
}
