// Native runtime for the harnesses: the sym_* interface backed by the inputs the
// solver chose.  Usage: prog TAPE, TAPE has one "name value" pair per line.
// Exit: 0 ended, checks passed; 10 a check failed; 11 terminate; 12 the run left
// the tape's path (diverged); 13 assumption false.  Prints OBS lines.
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <initializer_list>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" void harness();
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void *, size_t);
extern "C" void *__real_make_fcontext(void *, size_t, void (*)(void *));
extern "C" void race_free(void *, size_t) __attribute__((weak));   // race_rt.cpp: blocks are not reused then
extern "C" __attribute__((weak)) void sym_race(int) {}
extern "C" void sym_hook_make_fcontext(void *, size_t) __attribute__((weak));

struct In { char name[64]; uint64_t v; };
static In tape[4096];
static unsigned nTape = 0, pos = 0;
static bool strict = true;
static int cnt(const char *name) {  // occurrences of a name so far
  static struct { char n[64]; int c; } t[256];
  static int k = 0;
  for (int i = 0; i < k; ++i) if (!strcmp(t[i].n, name)) return t[i].c++;
  strncpy(t[k].n, name, 63);
  t[k].c = 1;
  ++k;
  return 0;
}
static void finish(int rc) { fflush(stdout); _exit(rc); }
static uint64_t next(const char *name) {
  char full[96];
  snprintf(full, sizeof full, "%s#%d", name, cnt(name));
  if (pos >= nTape) {
    if (strict) { printf("DIVERGED: tape ended, program asks for %s\n", full); finish(12); }
    ++pos;
    return 0;
  }
  if (strcmp(full, tape[pos].name)) { printf("DIVERGED: program asks for %s, tape has %s\n", full, tape[pos].name); finish(12); }
  return tape[pos++].v;
}
extern "C" {
uint64_t sym_u64(const char *n, unsigned bits) { uint64_t v = next(n); return bits >= 64 ? v : v & ((uint64_t(1) << bits) - 1); }
unsigned sym_choice(const char *n, unsigned k) { uint64_t v = next(n); if (v >= k) finish(13); return (unsigned)v; }
unsigned sym_pick(const char *n, unsigned k) { return sym_choice(n, k); }
void sym_assume(bool b) { if (!b) finish(13); }
static uint64_t nChecks = 0;
void sym_check(bool b, const char *m) { ++nChecks; if (!b) { printf("CHECK-FAILED: %s\n", m); finish(10); } }
void sym_cover(const char *m) {
  uint64_t h = 14695981039346656037ull;
  for (; *m; ++m) h = (h ^ (unsigned char)*m) * 1099511628211ull;
  printf("OBS %llu\n", (unsigned long long)h);
}
void sym_point(const char *) {}
void sym_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
}

// ---- blocks
struct Blk { void *p; size_t n; int kind; };
enum { MAXB = 4096 };
static Blk blk[MAXB];
static int live = 0, big = 0;
static uint64_t made = 0;
static void reg(void *p, size_t n, int kind) {
  ++made;
  for (int i = 0; i < MAXB; ++i) if (!blk[i].p) { blk[i] = Blk{ p, n, kind }; ++live; if (n >= 2048) ++big; return; }
}
static bool unreg(void *p, int kind, size_t n) {
  for (int i = 0; i < MAXB; ++i)
    if (blk[i].p == p) {
      if (blk[i].kind != kind) { printf("CHECK-FAILED: mismatched allocation and release\n"); finish(10); }
      if (kind == 3 && n > blk[i].n) { printf("CHECK-FAILED: munmap of part of a mapping\n"); finish(10); }
      if (race_free) race_free(p, blk[i].n);
      blk[i].p = nullptr;
      --live;
      if (blk[i].n >= 2048) --big;
      return true;
    }
  return false;
}
static void bad(const char *what) { printf("CHECK-FAILED: invalid or double %s\n", what); finish(10); }
extern "C" {
int sym_live_heap() { return live; }
int sym_live_stacks() { return big; }
uint64_t sym_heap_made() { return made; }
static Blk *find(void const *q) {
  for (int i = 0; i < MAXB; ++i)
    if (blk[i].p && (char const *)q >= (char *)blk[i].p && (char const *)q < (char *)blk[i].p + blk[i].n) return &blk[i];
  return nullptr;
}
size_t sym_block_size(void const *q) { Blk *b = find(q); return b ? b->n : 0; }
int sym_block_kind(void const *q) { Blk *b = find(q); return b ? b->kind : -1; }
static int poison() { static int v = -2; if (v == -2) { const char *e = getenv("REPLAY_POISON"); v = e ? atoi(e) : -1; } return v; }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (poison() >= 0) memset(p, poison(), n); reg(p, n, 0); return p; }
void __wrap_free(void *p) { if (!p) return; if (!unreg(p, 0, 0)) bad("free"); if (!race_free) __real_free(p); }
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { void *p = __real_mmap(a, n, pr, fl, fd, o); if (p != MAP_FAILED) reg(p, (n + 4095) / 4096 * 4096, 3); return p; }
int __wrap_munmap(void *p, size_t n) { if (!unreg(p, 3, n)) bad("munmap"); return race_free ? 0 : __real_munmap(p, n); }
void *__wrap_make_fcontext(void *sp, size_t size, void (*fn)(void *)) {
  if (sym_hook_make_fcontext) sym_hook_make_fcontext(sp, size);
  return __real_make_fcontext(sp, size, fn);
}
}
static bool counting = false;
static void *nw(size_t n, int k) {
  void *p = __real_malloc(n ? n : 1);
  if (!p) abort();
  if (poison() >= 0) memset(p, poison(), n);
  if (counting) reg(p, n, k);
  return p;
}
static void dl(void *p, int k, const char *w) {
  if (!p) return;
  if (counting && !unreg(p, k, 0)) bad(w);
  if (!race_free) __real_free(p);
}
static void *nwa(size_t n, size_t al, int k) { void *p = aligned_alloc(al, (n + al - 1) / al * al); if (counting) reg(p, n, k); return p; }
void *operator new(size_t n) { return nw(n, 1); }
void *operator new[](size_t n) { return nw(n, 2); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return nw(n, 1); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return nw(n, 2); }
void operator delete(void *p) noexcept { dl(p, 1, "delete"); }
void operator delete[](void *p) noexcept { dl(p, 2, "delete[]"); }
void operator delete(void *p, size_t) noexcept { dl(p, 1, "delete"); }
void operator delete[](void *p, size_t) noexcept { dl(p, 2, "delete[]"); }
#if __cplusplus >= 201703L
void *operator new(size_t n, std::align_val_t a) { return nwa(n, (size_t)a, 1); }
void *operator new[](size_t n, std::align_val_t a) { return nwa(n, (size_t)a, 2); }
void operator delete(void *p, std::align_val_t) noexcept { dl(p, 1, "delete"); }
void operator delete[](void *p, std::align_val_t) noexcept { dl(p, 2, "delete[]"); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { dl(p, 1, "delete"); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { dl(p, 2, "delete[]"); }
#endif

// ---- logical threads: worker 0 is the main thread
struct Worker {
  pthread_t th; pthread_mutex_t m; pthread_cond_t c;
  void (*f)(void *); void *arg; bool started, yielded, go, quit;
  void *stack;
};
static Worker wk[8];
static void *work(void *p) {
  Worker &w = *static_cast<Worker *>(p);
  pthread_mutex_lock(&w.m);
  for (;;) {
    while (!w.f && !w.quit) pthread_cond_wait(&w.c, &w.m);
    if (w.quit) break;
    w.f(w.arg);
    w.f = nullptr;
    pthread_cond_broadcast(&w.c);
  }
  pthread_mutex_unlock(&w.m);
  return nullptr;
}
// on a stack of our own, so that the thread-local storage in it can be taken away when the thread ends
static const size_t WORKER_STACK = 8u << 20;
static void start(Worker &w) {
  w.started = true;
  w.quit = false;
  w.f = nullptr;
  pthread_mutex_init(&w.m, nullptr);
  pthread_cond_init(&w.c, nullptr);
  pthread_attr_t at;
  pthread_attr_init(&at);
  w.stack = (void *)syscall(SYS_mmap, nullptr, WORKER_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (w.stack == MAP_FAILED || pthread_attr_setstack(&at, w.stack, WORKER_STACK) || pthread_create(&w.th, &at, &work, &w)) { printf("no thread\n"); finish(14); }
  pthread_attr_destroy(&at);
}
static int current = 0;
extern "C" void (*sym_tls_dtor(int, void **))(void *) { return nullptr; }
extern "C" void sym_end_thread(int t) {
  if (t == current || t <= 0 || t >= 8) { printf("bad thread\n"); finish(14); }
  Worker &w = wk[t];
  if (!w.started) return;
  pthread_mutex_lock(&w.m);
  w.quit = true;
  pthread_cond_broadcast(&w.c);
  pthread_mutex_unlock(&w.m);
  pthread_join(w.th, nullptr);
  syscall(SYS_mprotect, w.stack, WORKER_STACK, PROT_NONE);
  w.started = false;
}
extern "C" int sym_current_thread() { return current; }
extern "C" void sym_run_on(int t, void (*f)(void *), void *arg) {
  if (t == current) { f(arg); return; }
  if (t == 0 || t >= 8) { printf("bad thread\n"); finish(14); }
  Worker &w = wk[t];
  if (!w.started) start(w);
  int old = current;
  current = t;
  pthread_mutex_lock(&w.m);
  w.f = f;
  w.arg = arg;
  pthread_cond_broadcast(&w.c);
  while (w.f) pthread_cond_wait(&w.c, &w.m);
  pthread_mutex_unlock(&w.m);
  current = old;
}
extern "C" int sym_step(int t, void (*f)(void *), void *arg) {
  if (current != 0 || t < 1 || t >= 8) { printf("bad thread\n"); finish(14); }
  Worker &w = wk[t];
  if (!w.started) start(w);
  current = t;
  pthread_mutex_lock(&w.m);
  if (w.f) w.go = true; else { w.f = f; w.arg = arg; }
  w.yielded = false;
  pthread_cond_broadcast(&w.c);
  while (w.f && !w.yielded) pthread_cond_wait(&w.c, &w.m);
  int done = !w.f;
  pthread_mutex_unlock(&w.m);
  current = 0;
  return done;
}
extern "C" void sym_yield() {
  if (!current) return;
  Worker &w = wk[current];
  w.yielded = true;
  pthread_cond_broadcast(&w.c);
  while (!w.go) pthread_cond_wait(&w.c, &w.m);
  w.go = false;
}
static void onterm() { printf("TERMINATE\n"); finish(11); }
static char altstack[65536];
static void onsig(int s) {
  const char *m = s == SIGSEGV ? "SIGNAL SEGV\n" : s == SIGALRM ? "SIGNAL ALRM (no termination)\n" : s == SIGABRT ? "SIGNAL ABRT\n" : "SIGNAL\n";
  fflush(stdout);
  ssize_t r = write(1, m, strlen(m));
  (void)r;
  _exit(11);
}
int main(int argc, char **argv) {
  if (argc < 2) return 14;
  if (argc > 2) strict = false;   // replaying a counterexample: inputs after the violation are free
  FILE *f = fopen(argv[1], "r");
  if (!f) return 14;
  char line[256];
  while (fgets(line, sizeof line, f) && nTape < 4096) {
    char *tab = strchr(line, '\t');
    if (!tab) continue;
    *tab = 0;
    strncpy(tape[nTape].name, line, 63);
    tape[nTape].v = strtoull(tab + 1, nullptr, 0);
    ++nTape;
  }
  fclose(f);
  std::set_terminate(&onterm);
#ifndef NO_SIGNALS
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = onsig;
  sa.sa_flags = SA_ONSTACK;
  for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGALRM, SIGABRT }) sigaction(s, &sa, nullptr);
  alarm(20);
#endif
  counting = true;
  harness();
  if (pos < nTape && strict) { printf("DIVERGED: %u inputs left on the tape\n", nTape - pos); finish(12); }
  printf("OBS %llu\n", (unsigned long long)nChecks);
  printf("END\n");
  finish(0);
}
