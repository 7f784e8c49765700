// C05: operator bool / operator! on every history
#include "sendrecv.hpp"
#ifndef DIR
#define DIR 0
#endif
#ifndef OPS
#define OPS 4
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
struct Boom { int x; };
template <typename C> static void expect(C const &c, bool want, const char *m) {
  CHECK(static_cast<bool>(c) == want, m);
  CHECK(!c == !want, "operator! is not the negation of operator bool");
  CHECK(static_cast<bool>(c) == want, "operator bool changed without an operation");
}
extern "C" void harness() {
  unsigned m = sym_pick("suspensions", N + 1);
  unsigned how = sym_pick("ends by throwing", 2);
  unsigned left = m;      // suspensions still to come
  int over = 0;
  auto body = [&](Peer &peer) {
    expect(peer, true, "the caller's handle seen from inside is invalid");
    for (; left > 0;) {
      --left;
#if DIR == 0
      send(peer, left, left);
#else
      peer();
#endif
      expect(peer, true, "the caller's handle seen from inside is invalid after a switch");
    }
    over = 1;
    if (how) throw Boom{ 3 };
  };
  bool ctor_threw = false;
  try {
    Own own = make<Own>(body);
    Own other(std::move(own));
    expect(own, false, "moved-from coroutine is valid");
#if DIR == 0
    bool alive = !over;
    expect(other, alive, "validity after construction");
#else
    bool alive = true;
    expect(other, true, "a push coroutine is invalid after construction");
#endif
    bool in_other = true;   // which of the two objects holds the coroutine
    for (unsigned k = 0; k < OPS; ++k) {
      Own &h = in_other ? other : own;
      Own &e = in_other ? own : other;
      unsigned op = sym_pick("op", 4);
      if (op == 0) {
        if (!alive) continue;
        unsigned l0 = left;
        bool threw = false;
        try {
#if DIR == 0
          h();
#else
          send(h, k, k);
#endif
        } catch (Boom &) { threw = true; }
        if (over) {
          alive = false;
          CHECK(threw == (how != 0), "exception lost or invented");
          sym_cover(threw ? "threw" : "returned");
        } else CHECK(l0 == left + 1 && !threw, "resumption did not reach the next suspension");
        expect(h, alive, "validity after a resumption");
        expect(e, false, "an empty object became valid");
      } else if (op == 1) {
        e = std::move(h);
        in_other = !in_other;
        expect(e, alive, "validity after move assignment");
        expect(h, false, "source of a move assignment stays valid");
      } else if (op == 2) {
        Own t(std::move(h));
        expect(h, false, "source of a move construction stays valid");
        expect(t, alive, "validity after move construction");
        h = std::move(t);
        expect(t, false, "source of a move assignment stays valid");
        expect(h, alive, "validity after moving back");
      } else {
        expect(h, alive, "validity changed without an operation");
        expect(e, false, "an empty object became valid");
      }
    }
    if (alive) sym_cover("still suspended"); else sym_cover("finished");
  } catch (Boom &) { ctor_threw = true; sym_cover("constructor threw"); }
  if (DIR == 0) CHECK(ctor_threw == (m == 0 && how == 1), "exception from the constructor");
  else CHECK(!ctor_threw, "exception from the constructor");
}
