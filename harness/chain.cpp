// Coroutines owned by coroutine-functions: a pipeline of DEPTH stages, each holding
// the next one as an automatic object.  PROP selects the active assertions.
#include "sendrecv.hpp"
#ifdef P_PROP
# define PROP P_PROP
#endif
#ifndef DIR
#define DIR 0
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
#define IF(p, c, m) do { if (PROP == (p)) CHECK(c, m); } while (0)
#define VAL(c, m) do { if (PROP == 14 || PROP <= 3 || PROP == 11) CHECK(c, m); } while (0)
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
struct Boom { uint64_t x; Tr t; explicit Boom(uint64_t a) : x(a), t(a) {} };
struct Other {};
static uint64_t key[DEPTH + 1], base_;
static unsigned depth, n, how, got = 0, in_ = 0, where_throws;
static int guards[DEPTH + 1];          // automatic objects per stage
static int order = 0, last_gone = -1;
static bool unwinding_inner = false;
static int in_flight() {
#if __cplusplus >= 201703L
  return std::uncaught_exceptions();
#else
  return std::uncaught_exception() ? 1 : 0;
#endif
}
struct Helper {   // runs a small coroutine while the stack it lives on is being destroyed
  bool on;
  ~Helper() {
    if (!on) return;
    unsigned seen = 0;
    { boost::coroutines2::coroutine<int>::pull_type p([&](boost::coroutines2::coroutine<int>::push_type &s) { s(1); s(2); });
      while (p) { seen += p.get(); p(); } }
    CHECK(seen == 3, "a coroutine operated by a destructor misbehaves");
    bool caught = false;
    try { boost::coroutines2::coroutine<void>::pull_type p([](boost::coroutines2::coroutine<void>::push_type &) { throw Other(); }); }
    catch (Other &) { caught = true; }
    CHECK(caught, "an exception inside a destructor got lost");
    { boost::coroutines2::coroutine<int>::push_type p([&](boost::coroutines2::coroutine<int>::pull_type &s) { seen += s.get(); s(); seen += 100; }); p(4); }
    CHECK(seen == 7, "a coroutine abandoned by a destructor misbehaves");
    sym_cover("helper");
  }
};
struct Guard { unsigned d; explicit Guard(unsigned x) : d(x) { ++guards[d]; } Guard(Guard const &) = delete; ~Guard() { --guards[d]; } };
static unsigned helper_at, style;
static uint64_t offset(unsigned d) { uint64_t s = 0; for (unsigned i = 0; i < d; ++i) s += key[i]; return s; }
#if DIR == 0
static void stage(Peer &sink, unsigned d) {
  Guard g(d);
  Helper h{ helper_at == d + 1 };
  if (d == 0) {
    for (unsigned i = 0; i < n; ++i) { ++in_; send(sink, i, base_ + i); }
    if (how == 1) throw Boom(base_);
    return;
  }
  Own inner = make<Own>([d](Peer &p) { stage(p, d - 1); });
  Guard g2(d);
  unsigned k = 0;
  if (style == 1) {
# if !IS_VOID
    for (auto &x : inner) {
      VAL(val(x) == CODE(base_ + k + (IS_REF ? 0 : offset(d - 1))), "a stage received a wrong value");
      uint64_t y = val(x) + key[d - 1];
      send(sink, k, IS_REF ? val(x) : y); ++k;
    }
# endif
  } else
    for (; inner; inner()) {
      uint64_t want = base_ + k + offset(d - 1);
# if IS_REF
      want = base_ + k;
# endif
# if IS_REF
      VAL(std::addressof(inner.get()) == std::addressof(cell(k)), "another object arrived");
# endif
      uint64_t x = recv(inner, want);
      VAL(x == CODE(want), "a stage received a wrong value");
# if !IS_REF
      x += key[d - 1];
# endif
      send(sink, k, x);
      ++k;
    }
  VAL(k == n, "a stage lost values");
}
#else
static void stage(Peer &src, unsigned d) {
  Guard g(d);
  Helper h{ helper_at == d + 1 };
  if (d == 0) {
    for (;;) {
# if !IS_VOID
      uint64_t want = CODE(base_ + in_ + (IS_REF ? 0 : offset(depth)));
#  if IS_REF
      VAL(std::addressof(src.get()) == std::addressof(cell(in_)), "another object arrived");
#  endif
      VAL(recv(src, want) == want, "the last stage received a wrong value");
# endif
      ++in_;
      if (in_ == n) { if (how == 1) throw Boom(base_); if (how == 0) return; }
      src();
    }
  }
  Own inner = make<Own>([d](Peer &p) { stage(p, d - 1); });
  Guard g2(d);
  unsigned k = 0;
  for (;;) {
    uint64_t x = recv(src, base_ + k);
# if !IS_REF
    x += key[d - 1];
# endif
    send(inner, k, x);
    ++k;
    if (!inner) break;
    src();
  }
}
#endif
extern "C" void harness() {
  cells();
  Balance bal;
  base_ = sym_u64("base", BITS);
  for (unsigned i = 0; i < DEPTH; ++i) key[i] = IS_VOID ? 0 : sym_u64("key", 32);
  depth = sym_pick("stages", DEPTH) + 1;
  n = sym_pick("items", N + 1);
#if DIR == 1
  if (n == 0) sym_assume(false);
#endif
  how = sym_pick("end", 2);
  style = sym_pick("style", DIR == 0 && !IS_VOID ? 2 : 1);
  helper_at = PROP == 6 || PROP == 7 || PROP == 15 ? sym_pick("destructor uses coroutines", DEPTH + 2) : 0;
  unsigned stop = sym_pick("owner stops after", N + 2);
  bool moved = sym_pick("moved", 2) != 0;
  bool threw = false;
  unsigned c0 = 0;
  {
    try {
      Own o = make<Own>([](Peer &p) { stage(p, depth); });
      c0 = 1;
      unsigned k = 0;
      for (; o && k < stop; ++k) {
        if (moved && k == 1) { Own t(std::move(o)); o = std::move(t); }
#if DIR == 0
        uint64_t want = CODE(base_ + k + (IS_REF ? 0 : offset(depth)));
# if IS_REF
        VAL(std::addressof(o.get()) == std::addressof(cell(k)), "another object arrived");
# endif
        VAL(recv(o, want) == want, "the owner received a wrong value");
        ++got;
        o();
#else
        send(o, k, base_ + k);
        ++got;
#endif
        IF(14, in_ == got + (DIR == 0 && got < n ? 1 : 0), "stages do not advance together");
        for (unsigned d = 0; d <= depth; ++d) IF(7, guards[d] == (o ? (d ? 2 : 1) : 0), "automatic objects of a stage destroyed early or late");
        IF(15, in_flight() == 0 && !std::current_exception(), "exception state of the owner");
      }
      if (!o) VAL(got == n, "the pipeline ends early");
      sym_cover(o ? "abandoned" : "finished");
    } catch (Boom &b) {
      threw = true;
      IF(6, b.x == base_ && b.t.v == base_, "another exception arrived");
      IF(15, in_flight() == 0 && std::current_exception(), "exception state in the handler");
      for (unsigned d = 0; d <= depth; ++d) IF(7, guards[d] == 0, "automatic objects survive an exception");
      sym_cover("threw");
    }
  }
  (void)c0;
  bool reach = how == 1 && (DIR == 0 ? stop >= n : stop >= n);
  IF(6, threw == reach, "exception lost or invented");
  IF(14, threw == reach, "exception lost or invented");
  for (unsigned d = 0; d <= depth; ++d) IF(7, guards[d] == 0, "automatic objects of an inner coroutine are not destroyed");
  IF(15, in_flight() == 0 && !std::current_exception(), "exception state of the owner");
  if (PROP > 3) bal.verify();
}
