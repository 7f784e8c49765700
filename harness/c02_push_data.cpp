// C02: every value passed to a push coroutine is read by the coroutine-function once, in order, unaltered
#include "h.hpp"
extern "C" void harness() {
  unsigned n = sym_pick("count", N + 1);
  unsigned stop = sym_pick("reader_stops_after", N + 2);   // the reader takes at most this many values
  uint64_t p[N];
  for (unsigned i = 0; i < n; ++i) p[i] = sym_u64("payload", BITS);
  unsigned unread = sym_choice("unread", n + 1);   // one value the reader does not look at
  unsigned got = 0, entered = 0;
  {
    Push sink = make<Push>([&](Pull &src) {
      ++entered;
      for (;;) {
        if (got == stop) return;
        CHECK(!!src, "resumed with a value but source invalid");
        if (got == unread) { ++got; sym_cover("not read"); }
        else {
          O x = src.get();
          CHECK(got < n, "more values read than were sent");
          CHECK(val(x) == CODE(p[got]), "value read differs from the value sent");
          CHECK(intact(x), "object read is damaged");
          sym_observe(val(x));
          ++got;
        }
        if (got == stop) return;
        src();
      }
    });
    CHECK(entered == 0, "coroutine-function entered before the first value");
    Again again;
    for (unsigned k = 0; k < n; ++k) {
      if (!sink) { CHECK(k >= (stop ? stop : 1), "reader finished early"); break; }
#if COPYABLE
      unsigned form = sym_choice("lvalue", 3);
      if (form == 2) {                     // the same object as before with new contents
        O const &x = again.put(p[k]);
        sink(x);
        CHECK(val(x) == CODE(p[k]) && intact(x), "sending an lvalue changed the caller's object");
        sym_cover("same object");
      } else if (form == 1) {
        O x = mk(p[k]);
        if (sym_choice("const", 2)) { O const &cx = x; sink(cx); } else sink(x);
        CHECK(val(x) == CODE(p[k]) && intact(x), "sending an lvalue changed the caller's object");
        sym_cover("lvalue");
      } else
#endif
      {
        if (sym_choice("named", 2)) { O x = mk(p[k]); sink(std::move(x)); }
        else sink(mk(p[k]));
        sym_cover("rvalue");
      }
      unsigned want = k + 1 < stop ? k + 1 : stop;
      CHECK(got == want, "the value was not read by the time control came back");
    }
    if (n == N && stop > N) { CHECK(!!sink, "sink finished by itself"); sym_cover("all"); }
    if (n > stop) sym_cover("reader stopped");
  }
  CHECK(entered == (n ? 1u : 0u), "coroutine-function entered a wrong number of times");
  CHECK(tr_live == 0, "value objects left behind");
}
