// C14: nesting, chaining and arbitrary interleaving of several coroutines
#include "sendrecv.hpp"
#ifndef OPS
#define OPS 5
#endif
#ifndef NC
#define NC 3
#endif
#ifndef NPUSH
#define NPUSH 1      // the last NPUSH coroutines are push coroutines
#endif
// the same schedules serve other properties, each with the assertions that belong to it
#ifndef P_PROP
# define P_PROP 14
#endif
#define AT(c, m, ...) do { static const int ps_[] = { 14, __VA_ARGS__ }; for (int q_ : ps_) if (q_ == P_PROP) { CHECK(c, m); break; } } while (0)
#if ALLOC
# define FIRST SA(),
#else
# define FIRST
#endif
struct Boom { int id; uint64_t x; };
static Pull *pull_[NC];
static Push *push_[NC];
static bool gone[NC], created[NC], active[NC], ended[NC], entered[NC];
static unsigned seq[NC], in_[NC];        // items sent / received by each coroutine
static uint64_t key[NC];
static int who[NC + 2], depth = 0;       // chain of resumers, who[depth] runs; -1 is the main context
static unsigned budget = OPS;
static bool is_push(int j) { return j >= NC - NPUSH; }
static uint64_t item(int j, unsigned k) { return key[j] + k; }
static void op(int j);
static void act(int me);
static void leave(int me, bool end) {    // me suspends or ends
  AT(depth > 0 && who[depth] == me, "a coroutine runs that is not the one resumed last", 4);
  active[me] = false;
  if (end) ended[me] = true;
  --depth;
}
static void back(int me) {
  AT(depth > 0 && who[depth] == me && active[me], "control came back to a coroutine nobody resumed", 4);
}
template <typename P> static void body(int me, P yield) {
  Tr guard(me);
  entered[me] = true;
  uint64_t local = key[me];
  back(me);
  for (;;) {
    static const unsigned last[] = { 0, 2, 3 };
    unsigned a = budget ? sym_pick("inside", 4) : last[sym_pick("finally", 3)];
    if (a == 0) { leave(me, false); yield(); back(me); }            // suspend
    else if (a == 1) { --budget; act(me); }                         // operate another one
    else if (a == 2) { if (budget) --budget; sym_cover("returned"); leave(me, true); return; }
    else { if (budget) --budget; sym_cover("threw"); leave(me, true); throw Boom{ me, local }; }
    AT(local == key[me] && guard.v == (uint64_t)me, "local state disturbed by another coroutine", 4);
    back(me);
  }
}
static void enter(int j) { who[++depth] = j; active[j] = true; }
static void peek(int j) {
#if !IS_VOID
# if IS_REF
  if (!ended[j]) AT(std::addressof(pull_[j]->get()) == std::addressof(cell((unsigned)j)), "another object arrived", 3);
# endif
  if (!ended[j]) AT(recv(*pull_[j], 0) == item(j, seq[j]), "value of a coroutine changed by another's operation", 1, 3);
#endif
}
static void op(int j) {          // create or resume j from whatever context runs now
  int me = who[depth], d0 = depth;
  bool boom = false, want_end;
  (void)want_end;
  try {
    if (!created[j]) {
      created[j] = true;
      if (!is_push(j)) {
        enter(j);
        pull_[j] = new Pull(FIRST [j](Push &sink) { body(j, [&] { ++seq[j]; send(sink, (unsigned)j, item(j, seq[j])); }); });
      } else
        push_[j] = new Push(FIRST [j](Pull &src) { body(j, [&] {
#if !IS_VOID
# if IS_REF
          AT(std::addressof(src.get()) == std::addressof(cell((unsigned)j)), "another object arrived", 3);
# endif
          AT(recv(src, 0) == item(j, in_[j]), "a coroutine received another coroutine's value", 2, 3);
#endif
          src();
        }); });
    } else {
      if (!is_push(j)) { peek(j); enter(j); (*pull_[j])(); }
      else { enter(j); ++in_[j]; send(*push_[j], (unsigned)j, item(j, in_[j])); }
    }
  } catch (Boom &b) {
    boom = true;
    AT(b.id == j && b.x == key[j], "an exception of another coroutine arrived", 6);
    AT(ended[j], "exception without an end", 6);
  }
  AT(depth == d0 && who[depth] == me, "control returned to someone else than the most recent resumer", 4);
  if (boom) sym_cover("boom");
}
static void verify_all() {
  for (int j = 0; j < NC; ++j) {
    if (!created[j] || active[j] || gone[j]) continue;
    if (!is_push(j)) {
      if (!pull_[j]) { AT(ended[j], "constructor threw although the coroutine did not", 6); continue; }
      AT(!!*pull_[j] == !ended[j], "validity of a coroutine changed by another's operation", 5);
#if !IS_VOID
      if (!ended[j] && REREAD) AT(recv(*pull_[j], 0) == item(j, seq[j]), "value of a coroutine changed by another's operation", 1, 3);
#endif
    } else AT(!!*push_[j] == !ended[j], "validity of a coroutine changed by another's operation", 5);
  }
}
static void act(int me) {
  int j = (int)sym_pick("operates on", NC);
  if (j == me || active[j] || ended[j]) sym_assume(false);
  if (created[j] && !is_push(j) && !pull_[j]) sym_assume(false);
  if (me >= 0) sym_cover("nested");
  if (created[j] && sym_pick("destroy", 2)) {
    int d0 = depth;
    if (pull_[j]) { peek(j); Pull *q = pull_[j]; pull_[j] = nullptr; gone[j] = ended[j] = true; delete q; }
    else { Push *q = push_[j]; push_[j] = nullptr; gone[j] = ended[j] = true; delete q; }
    AT(depth == d0 && who[depth] == me, "destroying a coroutine switched to another one", 4);
    sym_cover(me >= 0 ? "destroyed by a coroutine" : "destroyed");
  } else op(j);
  verify_all();
}
extern "C" void harness() {
  cells();
  Balance bal;
  who[0] = -1;
  for (int j = 0; j < NC; ++j) key[j] = (sym_u64("key", 32) << 3) | (uint64_t)j;
  while (budget) {
    if (sym_pick("go on", 2) == 0) break;
    --budget;
    act(-1);
  }
  // destroyed in an arbitrary order
  unsigned first = sym_pick("destroyed first", NC);
  for (unsigned k = 0; k < NC; ++k) {
    unsigned j = (first + k) % NC;
    if (pull_[j]) { peek(j); delete pull_[j]; pull_[j] = nullptr; created[j] = false; }
    if (push_[j]) { delete push_[j]; push_[j] = nullptr; created[j] = false; }
    verify_all();
  }
  if (P_PROP >= 7 && P_PROP != 11) bal.verify();
}
