// Many coroutines: K alive at the same time, a nest of K coroutines each owned by the one around it,
// and K constructed and destroyed one after the other.  PROP selects the active assertions.
#define SA_MAX 600
#include "sendrecv.hpp"
#ifdef P_PROP
# define PROP P_PROP
#endif
#ifdef P_K
# define K P_K
#endif
#ifndef K
#define K 40
#endif
#ifndef DIR
#define DIR 0
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
#define ON(p) (PROP == (p) || PROP == 14)
#define IF(p, c, m) do { if (ON(p)) CHECK(c, m); } while (0)
#define VALID(c) do { if (PROP == 14 || PROP <= 5 || PROP == 10 || PROP == 11 || PROP == 12 || PROP == 19) CHECK(c, "a coroutine is invalid that another one left alone"); } while (0)
#define VALUE(c, m) do { if (PROP == 14 || PROP <= 3 || PROP == 9 || PROP == 10 || PROP == 11 || PROP == 12 || PROP == 19) CHECK(c, m); } while (0)
struct Boom { uint64_t x; unsigned who; };
static uint64_t base_;
static unsigned how, special, guards[K], entered[K], step_[K], seen[K];
static int last_gone;
static bool inner_first = true;
struct Guard {
  unsigned i; uint64_t v; Guard *self;
  explicit Guard(unsigned x) : i(x), v(base_ + x), self(this) { ++guards[i]; }
  Guard(Guard const &) = delete;
  ~Guard() { if (PROP == 14 || PROP == 7 || PROP == 4) CHECK(self == this && v == base_ + i, "an automatic object was damaged"); --guards[i]; if (last_gone >= 0 && (int)i != last_gone - 1) inner_first = false; last_gone = (int)i; }
};
#if IS_REF
static O *objs[K];
template <typename S> static S &snd(S &s, unsigned i, uint64_t x) { objs[i]->v = x; return s(*objs[i]); }
#else
template <typename S> static S &snd(S &s, unsigned i, uint64_t x) { return send(s, i, x); }
#endif
static uint64_t want(unsigned i, unsigned j) { return base_ + 16 * i + j; }
static uint64_t take(Pull &src, unsigned i, unsigned j) {
#if IS_REF
  VALUE(std::addressof(src.get()) == objs[i], "another object arrived");
#endif
  return recv(src, want(i, j));
}
static void body(unsigned i, Peer &peer) {
  ++entered[i];
  Guard g(i);
  uint64_t local = want(i, 7);
  for (unsigned j = 0;; ++j) {
    step_[i] = j + 1;
#if DIR == 0
    if (i == special && j == 1 && how == 0) return;
    if (i == special && j == 1 && how == 1) throw Boom{ base_, i };
    snd(peer, i, want(i, j));
#else
    VALUE(take(peer, i, j) == CODE(want(i, j)) || IS_VOID, "a coroutine was sent a value meant for another one");
    if (i == special && j == 1 && how == 0) return;
    if (i == special && j == 1 && how == 1) throw Boom{ base_, i };
    peer();
#endif
    IF(4, local == want(i, 7) && g.v == base_ + i, "local state disturbed by another coroutine");
  }
}
// one step of coroutine i, its j-th
static void step(Own &o, unsigned i, unsigned j) {
  VALID(!!o && static_cast<bool>(o));
#if DIR == 0
# if !IS_VOID
  VALUE(take(o, i, j) == CODE(want(i, j)), "a coroutine delivers a value of another one");
# endif
  o();
#else
  snd(o, i, want(i, j));
#endif
}
static void together() {
  static const unsigned pick[] = { 0, 1, K / 2, K - 1 };
  special = pick[sym_pick("special", 4)];
  how = sym_pick("end", 3);
  unsigned order = sym_pick("order", 3);
  Own *o[K];
  for (unsigned i = 0; i < K; ++i) {
    o[i] = new Own(make<Own>([i](Peer &p) { body(i, p); }));
    IF(4, entered[i] == (DIR == 0), "entered early or late");
    IF(7, guards[i] == (DIR == 0), "automatic objects");
    if (PROP == 8 && ALLOC) CHECK(sa_allocs == (int)i + 1 && sa_deallocs == 0, "a coroutine does not have exactly one stack");
  }
  for (unsigned j = 0; j < 2 + DIR; ++j)
    for (unsigned x = 0; x < K; ++x) {
      unsigned i = j & 1 ? K - 1 - x : x;
      if (i == special && !o[i]) continue;
      if (i == special && j == (DIR == 0 ? 0 : 1) && how < 2) {
        bool threw = false;
        try { step(*o[i], i, j); } catch (Boom &b) { threw = true; IF(6, b.who == i && b.x == base_, "the exception of another coroutine"); }
        IF(6, threw == (how == 1), "exception lost or invented");
        IF(5, !*o[i], "valid after its end");
        delete o[i];
        o[i] = nullptr;
        IF(7, guards[i] == 0, "automatic objects survive");
        sym_cover(how ? "threw" : "returned");
        continue;
      }
      if (i == special && j == 1 && how == 2) { delete o[i]; o[i] = nullptr; IF(7, guards[i] == 0, "automatic objects survive"); sym_cover("destroyed"); continue; }
      step(*o[i], i, j);
      IF(4, step_[i] == j + 1 + (DIR == 0), "resumed at another place");
      IF(7, guards[i] == 1, "automatic objects of a suspended coroutine");
    }
  for (unsigned x = 0; x < K; ++x) {
    unsigned i = order == 0 ? x : order == 1 ? K - 1 - x : (x * 2 < K ? x * 2 : (x - (K + 1) / 2) * 2 + 1);
    if (!o[i]) continue;
    VALID(!!*o[i]);
#if DIR == 0 && !IS_VOID
    VALUE(take(*o[i], i, 2) == CODE(want(i, 2)), "a coroutine delivers a value of another one");
#endif
    delete o[i];
    IF(7, guards[i] == 0, "automatic objects survive");
    IF(4, entered[i] == 1, "entered another time");
    if (PROP == 8 && ALLOC) CHECK(sa_allocs == (int)K, "an allocation too many");
  }
}
// K coroutines, each owned by the function of the one around it
static unsigned act;
static void level(unsigned d);
static void nested(unsigned d, Peer &peer) {
  ++entered[d];
  Guard g(d);
  uint64_t local = want(d, 7);
#if DIR == 1
  VALUE(take(peer, d, 0) == CODE(want(d, 0)) || IS_VOID, "another value arrived");
#endif
  if (d + 1 < K) {
    Own c = make<Own>([d](Peer &p) { nested(d + 1, p); });
#if DIR == 1
    snd(c, d + 1, want(d + 1, 0));
#elif !IS_VOID
    VALUE(take(c, d + 1, 0) == CODE(want(d + 1, 0)), "another value arrived");
#endif
    VALID(!!c);
#if DIR == 0
    snd(peer, d, want(d, 0));
    c();
#else
    peer();
    VALUE(take(peer, d, 1) == CODE(want(d, 1)) || IS_VOID, "another value arrived");
    snd(c, d + 1, want(d + 1, 1));
#endif
    IF(5, !c, "valid after its end");
  } else {
    if (act == 0) throw Boom{ base_, d };
#if DIR == 0
    snd(peer, d, want(d, 0));
#else
    peer();
    VALUE(take(peer, d, 1) == CODE(want(d, 1)) || IS_VOID, "another value arrived");
#endif
    if (act == 2) throw Boom{ base_, d };
  }
  IF(4, local == want(d, 7) && g.v == base_ + d, "local state disturbed by another coroutine");
}
static void nest() {
  act = sym_pick("nest", 4);        // throw on the way down; destroy; throw later; return
  bool threw = false;
  last_gone = -1;
  try {
    Own c = make<Own>([](Peer &p) { nested(0, p); });
#if DIR == 1
    snd(c, 0, want(0, 0));
#elif !IS_VOID
    VALUE(take(c, 0, 0) == CODE(want(0, 0)), "another value arrived");
#endif
    VALID(!!c);
    for (unsigned i = 0; i < K; ++i) { IF(7, guards[i] == 1, "automatic objects of a suspended coroutine"); IF(4, entered[i] == 1, "not entered once"); }
    if (PROP == 8 && ALLOC) CHECK(sa_allocs - sa_deallocs == (int)K, "a coroutine does not have exactly one stack");
    if (act >= 2) {
#if DIR == 0
      c();
#else
      snd(c, 0, want(0, 1));
#endif
      IF(5, !c, "valid after its end");
    }
  } catch (Boom &b) { threw = true; IF(6, b.who == K - 1 && b.x == base_, "another exception arrived"); }
  IF(6, threw == (act == 0 || act == 2), "exception lost or invented");
  for (unsigned i = 0; i < K; ++i) { IF(7, guards[i] == 0, "automatic objects survive"); IF(4, entered[i] == 1, "not entered once"); }
  IF(7, inner_first && last_gone == 0, "unwound in another order");
  sym_cover(threw ? "nest threw" : act == 1 ? "nest destroyed" : "nest returned");
}
// one after the other
static void sequence() {
  how = sym_pick("end", 3);
  special = 0;
  for (unsigned n = 0; n < (K < 75 ? 300 : 4 * K); ++n) {
    entered[0] = 0;
    {
      bool threw = false;
      Own c = make<Own>([](Peer &p) { body(0, p); });
      try { step(c, 0, 0); if (DIR == 1 || how == 2) step(c, 0, 1); } catch (Boom &b) { threw = true; IF(6, b.x == base_, "another exception arrived"); }
      IF(6, threw == (how == 1), "exception lost or invented");
      if (PROP == 14 || PROP == 5) CHECK(!c == (how != 2), "validity");
    }
    IF(7, guards[0] == 0, "automatic objects survive");
    IF(4, entered[0] == 1, "not entered once");
    if (PROP == 8 && ALLOC) CHECK(sa_allocs == (int)n + 1 && sa_deallocs == (int)n + 1, "stacks are not returned");
  }
  sym_cover("sequence");
}
extern "C" void harness() {
  Balance bal;
#if IS_REF
  for (unsigned i = 0; i < K; ++i) objs[i] = new O(mk(i));
#endif
  base_ = sym_u64("base", 64);
  last_gone = -1;
  switch (sym_pick("shape", 3)) {
    case 0: together(); break;
    case 1: nest(); break;
    default: sequence(); break;
  }
#if IS_REF
  for (unsigned i = 0; i < K; ++i) delete objs[i];
#endif
  bal.verify();
}
