// C01: every value sent by the coroutine-function is received once, in order, unaltered
#include "h.hpp"
extern "C" void harness() {
  unsigned n = sym_pick("count", N + 1);
  uint64_t p[N];
  for (unsigned i = 0; i < n; ++i) p[i] = sym_u64("payload", BITS);
  unsigned unread = sym_choice("unread", n + 1);   // one value the owner does not look at
  unsigned entered = 0;
  {
    Pull src = make<Pull>([&](Push &sink) {
      ++entered;
      Again again;
      for (unsigned i = 0; i < n; ++i) {
#if COPYABLE
        unsigned form = sym_choice("lvalue", 3);
      if (form == 2) {                     // the same object as before with new contents
        O const &x = again.put(p[i]);
        sink(x);
        CHECK(val(x) == CODE(p[i]) && intact(x), "sending an lvalue changed the sender's object");
        sym_cover("same object");
      } else if (form == 1) {
          O x = mk(p[i]);
          if (sym_choice("const", 2)) { O const &cx = x; sink(cx); } else sink(x);
          CHECK(val(x) == CODE(p[i]) && intact(x), "sending an lvalue changed the sender's object");
          sym_cover("lvalue");
        } else
#endif
        {
          if (sym_choice("named", 2)) { O x = mk(p[i]); sink(std::move(x)); }
          else sink(mk(p[i]));
          sym_cover("rvalue");
        }
      }
    });
    CHECK(entered == 1, "coroutine-function not entered exactly once");
    for (unsigned k = 0; k < n; ++k) {
      CHECK(!!src, "value sent but coroutine invalid");
      if (k == unread) sym_cover("not read");
      else {
        O x = src.get();
        CHECK(val(x) == CODE(p[k]), "received value differs from the value sent");
        CHECK(intact(x), "received object is damaged");
        sym_observe(val(x));
      }
      src();
    }
    CHECK(!src, "more values received than were sent");
    if (n == N) sym_cover("all");
    if (n == 0) sym_cover("none");
  }
  CHECK(entered == 1, "coroutine-function entered again");
  CHECK(tr_live == 0, "value objects left behind");
}
