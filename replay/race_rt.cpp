// Runtime for harnesses compiled with -fsanitize=thread and linked without it:
// happens-before tracking over the accesses of the compiled code, for confirming
// data races natively although the threads of a replay run one after the other.
// Only accesses of logical threads 1..3 between sym_race(1) and sym_race(0) count.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <unistd.h>
extern "C" int sym_current_thread();
typedef unsigned __int128 u128;
static bool on = false;
struct Cell { uintptr_t a; uint32_t w[4], r[4]; };
enum { LOG = 20 };
static Cell *tab = nullptr;
struct Sync { uintptr_t a; uint32_t v[4]; };
static Sync sy[4096];
static int nSync = 0;
static uint32_t vc[4][4];
static void race(const char *m) { printf("CHECK-FAILED: %s\n", m); fflush(stdout); _exit(10); }
static Cell &cell(uintptr_t a) {
  size_t h = (a * 0x9e3779b97f4a7c15ull) >> (64 - LOG);
  while (tab[h].a && tab[h].a != a) h = (h + 1) & ((size_t(1) << LOG) - 1);
  tab[h].a = a;
  return tab[h];
}
static void acc(uintptr_t a, size_t n, bool w) {
  if (!on) return;
  int t = sym_current_thread();
  if (t < 1 || t > 3) return;
  for (; n--; ++a) {
    Cell &c = cell(a);
    for (int u = 1; u < 4; ++u)
      if (u != t && (c.w[u] > vc[t][u] || (w && c.r[u] > vc[t][u]))) race("two threads access the same data without synchronisation");
    (w ? c.w : c.r)[t] = vc[t][t];
  }
}
static void sync(uintptr_t a, bool acq, bool rel) {
  if (!on) return;
  int t = sym_current_thread();
  if (t < 1 || t > 3) return;
  int i = 0;
  while (i < nSync && sy[i].a != a) ++i;
  if (i == nSync) { if (nSync == 4096) return; sy[nSync++].a = a; }
  if (acq) for (int u = 0; u < 4; ++u) if (sy[i].v[u] > vc[t][u]) vc[t][u] = sy[i].v[u];
  if (rel) { for (int u = 0; u < 4; ++u) if (vc[t][u] > sy[i].v[u]) sy[i].v[u] = vc[t][u]; ++vc[t][t]; }
}
static bool isAcq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }   // consume acquire acq_rel seq_cst
static bool isRel(int o) { return o == 3 || o == 4 || o == 5; }
extern "C" {
void sym_race(int b) {
  if (!tab) tab = static_cast<Cell *>(calloc(size_t(1) << LOG, sizeof(Cell)));
  memset(tab, 0, (size_t(1) << LOG) * sizeof(Cell));
  nSync = 0;
  memset(sy, 0, sizeof sy);
  for (int t = 0; t < 4; ++t) for (int u = 0; u < 4; ++u) vc[t][u] = t == u;
  on = b != 0;
}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { acc((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void **p) { acc((uintptr_t)p, 8, false); }
void __tsan_read_range(void *p, size_t n) { acc((uintptr_t)p, n, false); }
void __tsan_write_range(void *p, size_t n) { acc((uintptr_t)p, n, true); }
#define RW(n) \
  void __tsan_read##n(void *p) { acc((uintptr_t)p, n, false); } \
  void __tsan_write##n(void *p) { acc((uintptr_t)p, n, true); } \
  void __tsan_read##n##_pc(void *p, void *) { acc((uintptr_t)p, n, false); } \
  void __tsan_write##n##_pc(void *p, void *) { acc((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { acc((uintptr_t)p, n, false); } \
  void __tsan_unaligned_write##n(void *p) { acc((uintptr_t)p, n, true); } \
  void __tsan_volatile_read##n(void *p) { acc((uintptr_t)p, n, false); } \
  void __tsan_volatile_write##n(void *p) { acc((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *p, int o) { T v = __atomic_load_n(p, 5); sync((uintptr_t)p, isAcq(o), false); return v; } \
  void __tsan_atomic##b##_store(volatile T *p, T v, int o) { sync((uintptr_t)p, false, isRel(o)); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { sync((uintptr_t)p, isAcq(o), isRel(o)); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { sync((uintptr_t)p, isAcq(o), isRel(o)); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { sync((uintptr_t)p, isAcq(o), isRel(o)); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { sync((uintptr_t)p, isAcq(o), isRel(o)); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { sync((uintptr_t)p, isAcq(o), isRel(o)); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { sync((uintptr_t)p, isAcq(o), isRel(o)); return __atomic_fetch_xor(p, v, 5); } \
  T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int o) { sync((uintptr_t)p, isAcq(o), isRel(o)); return __atomic_fetch_nand(p, v, 5); } \
  static int cas##b(volatile T *p, T *e, T d, int o, int fo) { \
    int r = __atomic_compare_exchange_n(p, e, d, false, 5, 5); \
    sync((uintptr_t)p, isAcq(r ? o : fo), r && isRel(o)); return r; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T d, int o, int fo) { return cas##b(p, e, d, o, fo); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T d, int o, int fo) { return cas##b(p, e, d, o, fo); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T d, int o, int fo) { cas##b(p, &e, d, o, fo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { acc((uintptr_t)s, n, false); acc((uintptr_t)d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { acc((uintptr_t)s, n, false); acc((uintptr_t)d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { acc((uintptr_t)d, n, true); return __real_memset(d, c, n); }
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g) { int r = __real___cxa_guard_acquire(g); sync((uintptr_t)g, true, false); return r; }
void __wrap___cxa_guard_release(uint64_t *g) { sync((uintptr_t)g, false, true); __real___cxa_guard_release(g); }
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_once(pthread_once_t *, void (*)());
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { int r = __real_pthread_mutex_lock(m); sync((uintptr_t)m, true, false); return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { int r = __real_pthread_mutex_trylock(m); if (!r) sync((uintptr_t)m, true, false); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { sync((uintptr_t)m, false, true); return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) { sync((uintptr_t)o, true, false); int r = __real_pthread_once(o, f); sync((uintptr_t)o, false, true); return r; }
// out-of-line members of std::exception_ptr
void __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void *);
void __real__ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void *);
void __wrap__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void *p) { acc((uintptr_t)p, 8, true); __real__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(p); }
void __wrap__ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void *p) { acc((uintptr_t)p, 8, false); __real__ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(p); }
// an access of the program as a whole for released blocks is recorded by replay_rt
void race_free(void *p, size_t n) {
  if (!on) return;
  int t = sym_current_thread();
  if (t < 1 || t > 3) return;
  for (uintptr_t a = (uintptr_t)p; n--; ++a) {
    size_t h = (a * 0x9e3779b97f4a7c15ull) >> (64 - LOG);
    while (tab[h].a && tab[h].a != a) h = (h + 1) & ((size_t(1) << LOG) - 1);
    if (!tab[h].a) continue;
    for (int u = 1; u < 4; ++u) if (u != t && (tab[h].w[u] > vc[t][u] || tab[h].r[u] > vc[t][u])) race("a thread releases data that another one uses without synchronisation");
  }
}
}
