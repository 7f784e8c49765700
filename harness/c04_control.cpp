// C04: strict alternation; resumption exactly at the suspension point, at every call depth
#include "sendrecv.hpp"
#ifndef DIR
#define DIR 0
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
#ifndef SUSP
#define SUSP 4
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
static int turn = 0;         // 0 owner, 1 coroutine
static unsigned resumes = 0, suspends = 0, finished = 0, budget = SUSP, entered = 0;
static uint64_t pay[SUSP + 2];

static void yield_(Peer &peer) {
  CHECK(turn == 1, "coroutine runs out of turn");
  unsigned my = ++suspends;
  CHECK(resumes == my, "number of entries differs from number of suspensions");
  turn = 0;
#if DIR == 0
  Peer &r = send(peer, my, pay[my]);
#else
  Peer &r = peer();
#endif
  CHECK(&r == &peer, "operator() does not return the coroutine it was called on");
  CHECK(turn == 1, "resumed although the owner did not resume");
  CHECK(resumes == my + 1 && suspends == my, "resumed at the wrong suspension point");
}
static void walk(Peer &peer, unsigned depth) {
  uint64_t a = sym_u64("local", 64), b = a ^ 0x5555;
  uint64_t arr[3] = { a, b, depth };
  for (int phase = 0; phase < 2; ++phase) {
    if (budget && sym_choice("suspend", 2)) { --budget; yield_(peer); }
    CHECK((a ^ b) == 0x5555 && arr[0] == a && arr[1] == b && arr[2] == depth, "local state lost across a switch");
    if (phase == 0 && depth < DEPTH && sym_choice("call", 2)) walk(peer, depth + 1);
    if (phase == 1 && depth < 2 && budget && sym_choice("call again", 2)) walk(peer, depth + 1);
    CHECK((a ^ b) == 0x5555 && arr[0] == a && arr[1] == b && arr[2] == depth, "local state lost across a switch");
  }
}
extern "C" void harness() {
  uint64_t mine = sym_u64("owner_local", 64), mine2 = ~mine;
  for (unsigned i = 0; i < SUSP + 2; ++i) pay[i] = sym_u64("payload", BITS);
  {
#if DIR == 0
    turn = 1;
    resumes = 1;
#endif
    Own own = make<Own>([&](Peer &peer) {
      CHECK(turn == 1, "coroutine-function entered although the owner did not resume");
      CHECK(entered == 0, "coroutine-function entered twice");
      entered = 1;
      walk(peer, 0);
      turn = 0;
      finished = 1;
    });
    CHECK(turn == 0, "control came back without a suspension");
#if DIR == 0
    CHECK(entered == 1, "pull: the coroutine-function is not entered during construction");
#else
    CHECK(entered == 0, "push: the coroutine-function is entered during construction");
#endif
    for (;;) {
#if DIR == 0
      CHECK(resumes == suspends + finished, "control came back without a suspension");
      if (!own) break;
      CHECK(recv(own, pay[suspends]) == pay[suspends], "wrong value at this suspension");
#else
      CHECK(resumes == suspends + finished, "control came back without a suspension");
      if (finished) break;
#endif
      if (sym_choice("abandon", 4) == 3) { sym_cover("abandon"); break; }
      turn = 1;
      ++resumes;
      unsigned s0 = suspends;
#if DIR == 0
      Own &r = own();
#else
      Own &r = send(own, resumes, pay[0]);
#endif
      CHECK(&r == &own, "operator() does not return the coroutine it was called on");
      CHECK(turn == 0, "operator() returned before the coroutine suspended");
      CHECK(suspends + finished == s0 + 1, "more than one suspension per resumption");
      CHECK(mine2 == ~mine, "owner's local state lost");
    }
    if (finished) { CHECK(!own, "finished but still valid"); sym_cover("finished"); }
    if (suspends == SUSP) sym_cover("all suspensions");
    turn = 1;
  }
  CHECK(finished <= 1 && entered <= 1, "ran twice");
}
