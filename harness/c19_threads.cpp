// C19: a suspended coroutine may be operated on other threads (one at a time)
#include "sendrecv.hpp"
#ifndef DIR
#define DIR 0
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
struct Boom { Tr t; explicit Boom(uint64_t x) : t(x) {} };
static uint64_t key;
static unsigned m, plan, progress = 0;
static int guards = 0;
struct Guard { ~Guard() { ++guards; } };
static void body(Peer &p) {
  Guard g;
  for (unsigned i = 0; i < m; ++i) {
    ++progress;
#if DIR == 0
    send(p, i, key + i);
#else
# if !IS_VOID
    CHECK(recv(p, 0) == key + i, "value lost between threads");
# endif
    p();
#endif
    if (plan == 2) { try { throw Boom(key + i); } catch (Boom &b) { CHECK(b.t.v == key + i, "exception contents"); } }
  }
  ++progress;
  if (plan == 1) throw Boom(key + 999);
}
static Own *own = nullptr;
static void clean(const char *m_) {
  CHECK(!std::current_exception(), m_);
#if __cplusplus >= 201703L
  CHECK(std::uncaught_exceptions() == 0, m_);
#else
  CHECK(!std::uncaught_exception(), m_);
#endif
}
extern "C" void harness() {
  cells();
  Balance bal;
  key = sym_u64("key", 64);
  m = sym_pick("suspensions", N + 1);
  plan = sym_pick("plan", 3);
  unsigned T = 3;
  unsigned resumes = sym_pick("resumptions", N + 2);
  unsigned busy = sym_pick("resumer is handling an exception", 2);
  unsigned ends = sym_pick("threads end after each operation", 2);
  unsigned thrown = 0;
  unsigned t0 = 1 + sym_pick("thread", T);
  static Own *moved;
  moved = nullptr;
  run_on((int)t0, [&] {
    try { own = new Own(make<Own>(&body)); } catch (Boom &b) { ++thrown; CHECK(b.t.v == key + 999, "exception contents"); }
    clean("construction left exception state behind");
  });
  if (ends) { end_thread((int)t0); sym_cover("creator has ended"); }
  if (!own) CHECK(DIR == 0 && m == 0 && plan == 1 && thrown == 1, "construction failed");
  unsigned last = t0;
  for (unsigned k = 0; own && k < resumes && *own; ++k) {
    unsigned t = 1 + sym_pick("thread", T);
    if (t != last) sym_cover("migrated");
    last = t;
    run_on((int)t, [&] {
      auto step = [&] {
        try {
          CHECK(!!*own, "validity on another thread");
#if DIR == 0
# if !IS_VOID
          CHECK(recv(*own, 0) == key + k, "value lost between threads");
# endif
          (*own)();
#else
          send(*own, k, key + k);
#endif
        } catch (Boom &b) { ++thrown; CHECK(b.t.v == key + 999 && plan == 1, "exception contents"); }
      };
      if (busy) {
        try { throw 5; } catch (int &e) {
          std::exception_ptr c0 = std::current_exception();
          step();
          CHECK(e == 5 && std::current_exception() == c0, "the exception being handled was disturbed");
        }
      } else step();
      clean("a resumption left exception state behind");
    });
    for (unsigned q = 0; q <= T; ++q) run_on((int)q, [&] { clean("another thread's exception state was disturbed"); });
    if (ends) for (unsigned q = 1; q <= T; ++q) end_thread((int)q);
    CHECK(progress == k + (DIR == 0 ? 2 : 1), "progress");
  }
  unsigned td = 1 + sym_pick("thread", T);
  if (own) run_on((int)td, [&] {
    bool alive = !!*own;
    sym_cover(alive ? "destroyed suspended" : "destroyed finished");
    Own *x = new Own(std::move(*own));
    CHECK(!*own && !!*x == alive, "move on another thread");
    delete own;
    delete x;
    clean("destruction left exception state behind");
  });
  bool entered = progress > 0;
  CHECK(guards == (entered ? 1 : 0), "stack unwound a wrong number of times");
  for (unsigned q = 0; q <= T; ++q) run_on((int)q, [&] { clean("exception state left behind"); });
  if (thrown) sym_cover("thrown");
  CHECK(thrown <= 1, "exception delivered twice");
  for (unsigned q = 1; q <= T; ++q) end_thread((int)q);   // what the threads keep for themselves goes with them
  bal.verify();
}
