// One long history: LEN transfers in a row (counters must not wrap, state must not
// drift).  PROP selects the property whose assertions are active.
#include "sendrecv.hpp"
#ifdef P_PROP
# define PROP P_PROP
#endif
#ifndef DIR
#define DIR 0
#endif
#ifndef LEN
#define LEN 270
#endif
#ifdef P_SHORT
static const unsigned lens[] = { 9, 17, 33, 65, 130, LEN };
#else
static const unsigned lens[] = { LEN };
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
#define IF(p, c, m) do { if (PROP == (p) || ((p) == 5 && VALID)) CHECK(c, m); } while (0)
#define VALID (PROP <= 5 || PROP == 10 || PROP == 11 || PROP == 12 || PROP == 19)   // a coroutine that turns invalid loses values, cannot be resumed...
struct Boom { uint64_t x; };
static uint64_t base_, n, how;
static unsigned sent = 0, got = 0, entered = 0, ended = 0, guards = 0, turn = 0;
struct Guard { Guard() { ++guards; } Guard(Guard const &) = delete; ~Guard() { --guards; } };
static int in_flight() {
#if __cplusplus >= 201703L
  return std::uncaught_exceptions();
#else
  return std::uncaught_exception() ? 1 : 0;
#endif
}
static void check_item(Pull &src, unsigned k) {      // item k is pending in src
#if IS_VOID
  (void)src; (void)k;
#else
  IF(5, !!src && static_cast<bool>(src), "a value is pending but the coroutine is invalid");
# if IS_REF
  IF(3, std::addressof(src.get()) == std::addressof(cell(k)), "another object arrived");
  IF(3, val(src.get()) == CODE(base_ + k), "a write of the sender is not visible");
# elif REREAD
  IF(18, val(src.get()) == CODE(base_ + k), "value changed");
  IF(18, val(src.get()) == CODE(base_ + k), "a repeated get() returns a different value");
# endif
  if (PROP != 3 && PROP != 11) {
    uint64_t x = recv(src, base_ + k);
    if (PROP == (DIR == 0 ? 1 : 2) || PROP == 9 || PROP == 10 || PROP == 19 || PROP == 12 || PROP == 18) CHECK(x == CODE(base_ + k), "a wrong value arrived");
  }
#endif
}
static void put_item(Push &sink, unsigned k) {
#if IS_VOID
  Push &r = sink();
  (void)k;
#else
  if (PROP == 12) {
# if COPYABLE
    Push::iterator it = begin(sink), e = end(sink);
    CHECK(it != e, "begin() of an unfinished push coroutine equals end()");
#  if IS_REF
    O &o = cell(k); put(o, base_ + k);
    *it = o;
#  else
    *it = mk(base_ + k);
#  endif
    if (DIR == 0) CHECK(it != e, "the iterator reached end() although the coroutine goes on");
    else CHECK((it == e) == (ended != 0), "comparison with end() does not tell completion");
# endif
    return;
  }
  Push &r = send(sink, k, base_ + k);
#endif
  IF(4, &r == &sink, "operator() does not return the coroutine it was called on");
}
static void body(Peer &peer) {
  Guard g;
  ++entered;
  IF(4, turn == 1, "entered although nobody resumed");
  uint64_t local = base_ ^ 0x77;
#if DIR == 0
  for (unsigned i = 0; i < n; ++i) {
    ++sent;
    turn = 0;
    put_item(peer, i);
    IF(4, turn == 1 && sent == i + 1 && local == (base_ ^ 0x77), "resumed at a wrong point");
    IF(5, !!peer, "the caller's handle is invalid");
    IF(15, in_flight() == 0 && !std::current_exception(), "exception state inside the coroutine");
  }
#else
  if (PROP == 11) {
# if !IS_VOID
    for (auto &x : peer) { CHECK(val(x) == CODE(base_ + got), "iteration yields a wrong value"); ++got; turn = 0; if (got == n) break; }
# endif
  } else for (unsigned i = 0; i < n; ++i) {
    check_item(peer, i);
    ++got;
    turn = 0;
    if (i + 1 < n) peer();
    IF(4, i + 1 == n || (turn == 1 && sent == i + 2 && local == (base_ ^ 0x77)), "resumed at a wrong point");
  }
#endif
  turn = 0;
  ended = 1;
  if (how == 1) throw Boom{ base_ };
}
struct Callable {
  uint64_t tag; Tr t;
  void operator()(Peer &p) { IF(16, tag == base_ && t.v == base_, "captured state lost"); body(p); IF(16, tag == base_ && t.v == base_, "captured state lost"); }
};
extern "C" void harness() {
  cells();
  Balance bal;
  base_ = sym_u64("base", BITS);
  n = lens[sym_pick("length", sizeof lens / sizeof *lens)];
#ifdef P_HOW
  how = P_HOW;
#else
  how = sym_pick("end", 3);     // returns, throws, destroyed while suspended
#endif
  bool threw = false;
  int t0, h0;
  {
    turn = 1;
    int threads = PROP == 19;
    alignas(Own) unsigned char mem[2][sizeof(Own)];
    Own *o = nullptr;
    unsigned where = 0;
#if DIR == 1
    turn = 0;
#endif
    { Callable c{ base_, Tr(base_) };
      auto mkit = [&] { o = PROP == 8 ? new (mem[0]) Own(SA(), std::move(c)) : new (mem[0]) Own(std::move(c)); };
      if (threads) run_on(1, mkit); else mkit(); }
    h0 = sym_live_heap();
    t0 = tr_live;
    unsigned steps = 0;
    IF(16, entered == (DIR == 0 ? 1u : 0u), "number of calls after construction");
    unsigned last = how == 2 ? (unsigned)n - 1 : (unsigned)n;
    Pull *pp = nullptr;
#if DIR == 0
    pp = o;
    if (PROP == 11) {
# if !IS_VOID
      Pull::iterator i = begin(*pp), e = end(*pp);
      try {
        for (; i != e; ++i) {
          CHECK(got < n, "iteration yields more than was sent");
          CHECK(val(*i) == CODE(base_ + got), "iteration yields a wrong value");
          ++got;
          turn = 1;
          if (how == 2 && got == last) break;
        }
      } catch (Boom &) { threw = true; }
      CHECK(got == last, "iteration ends early");
      if (how == 0) CHECK(i == e, "not at end()");
# endif
    } else
#endif
    for (;;) {
      if (ended) break;
      if (PROP == 10 || PROP == 16) {          // move it back and forth
        Own *t = new (mem[1 - where]) Own(std::move(*o));
        CHECK(!*o, "source of a move stays valid");
        o->~Own();
        o = t;
        where = 1 - where;
      }
      auto step = [&] {
        IF(5, !!*o, "invalid while suspended");
#if DIR == 0
        check_item(*o, steps);
        ++got;
#endif
        turn = 1;
#if DIR == 0
        Own &r = (*o)();
        IF(4, &r == o, "operator() does not return the coroutine it was called on");
#else
        ++sent;
        put_item(*o, steps);
#endif
      };
      (void)pp;
      if (steps == last) break;
      try {
        if (threads) run_on(1 + (int)(steps & 1), [&] { try { step(); } catch (Boom &b) { threw = true; CHECK(b.x == base_, "another exception arrived"); } });
        else step();
      } catch (Boom &b) { threw = true; IF(6, b.x == base_ && how == 1, "another exception arrived"); }
      ++steps;
      IF(6, threw == (how == 1 && ended), "exception lost, invented or late");
      IF(4, turn == 0, "operator() returned before the coroutine suspended");
      IF(8, sa_allocs == 1 && (ended || sa_deallocs == 0), "stack given back early or allocated again");
      IF(7, guards == (ended ? 0u : 1u), "automatic objects destroyed early or late");
      IF(16, entered == 1, "the callable runs more than once");
      if (!IS_REF && !ended) IF(9, tr_live <= t0 + 2, "value objects accumulate");
      if (!ended && VK != VK_UPTR && VK != VK_VEC && PROP != 9) { IF(8, sym_live_heap() == h0, "memory accumulates"); IF(14, sym_live_heap() == h0, "memory accumulates"); }
      IF(15, in_flight() == 0 && !std::current_exception(), "exception state of the owner");
      if (DIR == 1) { if (PROP == 2) CHECK(got == steps, "the value was not read"); }
    }
    if (how != 2) { IF(5, !*o && !static_cast<bool>(*o), "still valid after the end"); IF(1, got == n, "number of values"); IF(2, got == n, "number of values"); IF(3, got == n, "number of values"); }
    else { IF(5, !!*o, "invalid while suspended"); }
    sym_cover(how == 0 ? "returned" : how == 1 ? "threw" : "abandoned");
    if (threads) run_on(2, [&] { o->~Own(); }); else o->~Own();
    IF(7, guards == 0, "automatic objects not destroyed");
    IF(8, sa_deallocs == 1, "stack not given back exactly once");
  }
  if (PROP == 6) CHECK(threw == (how == 1), "exception lost or invented");
  if (PROP == 7 || PROP == 8 || PROP == 9 || PROP == 10 || PROP == 15 || PROP == 16) bal.verify();
  sym_observe(got);
}
