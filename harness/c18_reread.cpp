// C18: get() may be repeated for copyable types
#include "sendrecv.hpp"
// the moved-from state is told apart from any other wrong value (see KNOWN_FINDINGS.json)
#if VK == VK_PAIR
static bool gutted(O const &o) { return o.second.moved != 0; }
#elif VK == VK_TR || VK == VK_BIG || VK == VK_HUGE
static bool gutted(O const &o) { return o.moved != 0; }
#else
static bool gutted(O const &) { return false; }
#endif
extern "C" void harness() {
  unsigned n = sym_pick("count", N) + 1;
  uint64_t p[N + 1];
  for (unsigned i = 0; i < n; ++i) p[i] = sym_u64("payload", BITS);
  unsigned reads = sym_pick("reads", 4);
  unsigned dir = sym_pick("direction", 2);
  auto reread = [&](Pull &src, uint64_t want) {
    for (unsigned r = 0; r < reads; ++r) {
      O x = src.get();
      if (r == 0) CHECK(val(x) == want && intact(x), "the first get() returns a wrong value");
      else {
        CHECK(!gutted(x), "a repeated get() returns the moved-from object");
        CHECK(val(x) == want && intact(x), "a repeated get() returns a different value");
        sym_cover("repeated");
      }
      CHECK(!!src, "get() changed the validity");
    }
#if !IS_VOID
    if (sym_pick("iterate", 2)) {
      Pull::iterator it = src.begin();
      CHECK(it != src.end(), "no element although valid");
      if (reads) CHECK(!gutted(*it), "after get() an iterator sees the moved-from object");
      CHECK(val(*it) == want && intact(*it), "get() damaged the value seen by an iterator");
      CHECK(val(*it) == want && intact(*it), "dereferencing an iterator consumes the value");
      sym_cover("iterated");
    }
#endif
  };
  if (dir == 0) {
    Pull src = make<Pull>([&](Push &sink) { for (unsigned i = 0; i < n; ++i) sink(mk(p[i])); });
    for (unsigned i = 0; i < n; ++i) { reread(src, p[i]); src(); }
    CHECK(!src, "count");
  } else {
    unsigned got = 0;
    Push sink = make<Push>([&](Pull &src) { for (;;) { reread(src, p[got]); ++got; src(); } });
    for (unsigned i = 0; i < n; ++i) sink(mk(p[i]));
    CHECK(got == n, "count");
  }
}
