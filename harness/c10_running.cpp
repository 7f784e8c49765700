// C10: the owner's handle is moved while its coroutine (or another one) is running
#include "sendrecv.hpp"
#ifndef DIR
#define DIR 0
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
#ifndef LEN
#define LEN 3
#endif
struct Boom { uint64_t x; };
static Own *slot_[2][2];                 // [coroutine][two objects]
static unsigned at[2], progress[2], unw[2];
static bool over[2];
static uint64_t base_;
static unsigned how;
struct Mark { unsigned id; explicit Mark(unsigned i) : id(i) {} Mark(Mark const &) = delete; ~Mark() { ++unw[id]; } };
static void resume(unsigned id);
static void shift(unsigned id) {         // move the handle of coroutine id to its other object
  if (!slot_[id][0]) return;
  Own &from = *slot_[id][at[id]], &to = *slot_[id][1 - at[id]];
  unsigned p0 = progress[0], p1 = progress[1], u0 = unw[0], u1 = unw[1];
  to = std::move(from);
  at[id] = 1 - at[id];
  CHECK(!from, "source of a move stays valid");
  CHECK(p0 == progress[0] && p1 == progress[1] && u0 == unw[0] && u1 == unw[1], "a move ran or destroyed a coroutine");
  sym_cover("moved while running");
}
static void body(unsigned id, Peer &p) {
  Mark m(id);
  for (unsigned i = 0; i < LEN; ++i) {
    ++progress[id];
    unsigned a = sym_pick("inside", 4);
    if (a == 1) shift(id);               // its own handle
    else if (a == 2) shift(1 - id);      // another coroutine's handle
    else if (a == 3 && id == 0 && !over[1] && slot_[1][0]) resume(1);
#if DIR == 0
    send(p, id, base_ + 100 * id + progress[id]);
#else
# if !IS_VOID
    CHECK(recv(p, 0) == base_ + 100 * id + progress[id], "pending value lost in a move");
# endif
    p();
#endif
  }
  ++progress[id];
  if (sym_pick("moved before the end", 2)) shift(id);
  over[id] = true;
  if (how) throw Boom{ base_ + id };
}
static void resume(unsigned id) {
  Own &h = *slot_[id][at[id]];
  CHECK(!!h, "coroutine lost");
  unsigned p0 = progress[id];
  bool threw = false;
  try {
#if DIR == 0
# if !IS_VOID
    CHECK(recv(h, 0) == base_ + 100 * id + p0, "pending value lost in a move");
# endif
    Own &r = h();
#else
    Own &r = send(h, id, base_ + 100 * id + p0 + 1);
#endif
    CHECK(&r == &h, "operator() does not return the coroutine it was called on");
  } catch (Boom &b) { threw = true; CHECK(b.x == base_ + id, "another exception arrived"); }
  CHECK(progress[id] == p0 + 1, "the coroutine does not continue where it was");
  CHECK(threw == (over[id] && how), "exception lost or invented");
  CHECK(!!*slot_[id][at[id]] == !over[id], "validity after a move while running");
  CHECK(!*slot_[id][1 - at[id]], "the object moved from became valid");
}
extern "C" void harness() {
  cells();
  Balance bal;
  base_ = sym_u64("base", 64);
  how = sym_pick("throws", 2);
  {
    Own e0([](Peer &) {}), e1(std::move(e0)), e2(std::move(e0));
    Own a = make<Own>([](Peer &p) { body(0, p); });
    slot_[0][0] = &a; slot_[0][1] = &e0;
    Own b = make<Own>([](Peer &p) { body(1, p); });
    slot_[1][0] = &b; slot_[1][1] = &e2;
    unsigned n = sym_pick("resumptions", LEN + 2);
    for (unsigned k = 0; k < n; ++k) {
      if (!over[0]) resume(0);
      if (sym_pick("other", 2) && !over[1]) resume(1);
    }
    if (over[0]) sym_cover("finished"); else sym_cover("suspended");
  }
  for (unsigned i = 0; i < 2; ++i) CHECK(unw[i] == (progress[i] ? 1u : 0u), "stack not unwound exactly once");
  bal.verify();
}
