// C09: values in transit are constructed and destroyed exactly once, also when
// their copy/move constructor throws in the middle of a transfer
#include "sendrecv.hpp"
#ifndef DIR
#define DIR 0
#endif
#ifndef OPS
#define OPS 3
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
// one transfer; returns true if the value's constructor threw
template <typename S> static bool xfer(S &s, uint64_t x) {
  unsigned form = sym_pick("form", COPYABLE ? 4 : 2);
  unsigned fail = sym_pick("constructor throws", 2);
  int t0 = tr_thrown;
  bool threw = false;
  {
    O o = mk(x);
    try {
      if (form == 0) { if (fail) tr_throw_in = 1; s(std::move(o)); }
      else if (form == 1) { if (fail) tr_throw_in = 1; O &&r = std::move(o); s(static_cast<O &&>(r)); }
#if COPYABLE
      else if (form == 2) { if (fail) tr_throw_in = 1; s(o); }
      else { O const &c = o; if (fail) tr_throw_in = 1; s(c); }
#endif
    } catch (TrThrow &e) { threw = true; CHECK(e.tag == 7, "exception changed"); }
    tr_throw_in = 0;
  }
  CHECK(threw == (tr_thrown != t0), "an exception of the value's constructor did not reach the sender");
  if (threw) sym_cover("constructor threw");
  return threw;
}
extern "C" void harness() {
  cells();
  Balance bal;
  uint64_t p[OPS + 1];
  for (unsigned i = 0; i <= OPS; ++i) p[i] = sym_u64("payload", 64);
  unsigned ops = sym_pick("transfers", OPS + 1);
  unsigned stop = sym_pick("receiver stops after", OPS + 2);
  uint64_t last = 0; bool have = false;      // what the receiver must find
  unsigned got = 0, sent = 0;
#if DIR == 0
  {
    Pull src = make<Pull>([&](Push &sink) {
      for (unsigned i = 0; i < ops; ++i) {
        last = p[i];
        have = true;
        ++sent;
        if (xfer(sink, p[i])) { --sent; have = false; }
      }
      have = false;
    });
    while (src && got < stop) {
      CHECK(have, "a value is available although none was sent");
      if (sym_choice("read it", 2)) { O x = src.get(); CHECK(val(x) == last && intact(x), "value damaged"); sym_cover("read"); }
      ++got;
      src();
    }
    sym_cover(src ? "destroyed with a pending value" : "ended");
  }
#else
  {
    Push sink = make<Push>([&](Pull &src) {
      for (;;) {
        if (got == stop) return;
        CHECK(!!src, "resumed without a value");
        if (sym_choice("read it", 2)) { O x = src.get(); CHECK(val(x) == last && intact(x), "value damaged"); sym_cover("read"); }
        ++got;
        if (got == stop) return;
        src();
      }
    });
    for (unsigned i = 0; i < ops && sink; ++i) {
      last = p[i];
      unsigned g0 = got;
      bool threw = xfer(sink, p[i]);
      if (threw) CHECK(got == g0, "the coroutine ran although the transfer failed");
      else { ++sent; CHECK(got == g0 + 1 || stop == 0, "the transfer did not happen"); }
      if (threw) CHECK(!!sink, "a failed transfer ended the coroutine");
    }
    sym_cover(sink ? "destroyed with a pending value" : "ended");
  }
#endif
  bal.verify();
}
