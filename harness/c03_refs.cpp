// C03: reference coroutines transfer identity
#include "h.hpp"
#ifndef DIR
#define DIR 0
#endif
#if VK == VK_IREF
# define FLD(x) (x)
#else
# define FLD(x) (x).v
#endif
template <typename A, typename B> static bool same(A &a, B &b) {
  return static_cast<void const volatile *>(std::addressof(a)) == static_cast<void const volatile *>(std::addressof(b));
}
extern "C" void harness() {
  static Again place;
  O &global = place.put(10);
  O automatic = mk(20);
  std::unique_ptr<Again> heap(new Again);
  O *const objs[3] = { std::addressof(global), std::addressof(automatic), std::addressof(heap->put(30)) };
  uint64_t w = sym_u64("written", 64), w2 = sym_u64("written2", 64);
  unsigned n = sym_pick("count", N + 1);
  unsigned idx[N + 1];
  for (unsigned i = 0; i < n; ++i) idx[i] = sym_choice("which", 3);
  unsigned it = sym_pick("via_iterator", 2);
  unsigned unread = it ? n : sym_choice("unread", n + 1);     // one reference the receiver does not look at
  int made0 = tr_made;
  unsigned got = 0;
#if VK == VK_CREF
  if (sym_pick("temporary", 2)) {          // a temporary lives until the sending call returns
    unsigned seen = 0;
    int made1 = tr_made;
    void const *where = nullptr;
    auto tmp = [&](unsigned i) { return O(w + i); };
    {
# if DIR == 0
      Pull src = make<Pull>([&](Push &sink) { for (unsigned i = 0; i < n; ++i) { sink(tmp(i)); } });
      for (; src; src()) { V r = src.get(); CHECK(FLD(r) == w + seen && intact(r), "a temporary sent by reference is not what arrives"); CHECK(&r == &src.get(), "get() refers to another object"); ++seen; }
# else
      Push sink = make<Push>([&](Pull &src) { for (;; src()) { V r = src.get(); CHECK(FLD(r) == w + seen && intact(r), "a temporary sent by reference is not what arrives"); CHECK(&r == &src.get(), "get() refers to another object"); ++seen; } });
      for (unsigned i = 0; i < n; ++i) sink(tmp(i));
# endif
    }
    (void)where;
    CHECK(seen == n && tr_made == made1 + (int)n, "a reference coroutine copied the object");
    sym_cover("temporary");
    return;
  }
#endif
#if DIR == 0
  {
    Pull src = make<Pull>([&](Push &sink) {
      for (unsigned i = 0; i < n; ++i) {
        O &o = (*objs[idx[i]]);
        FLD(o) = w + i;
        sink(o);
# if VK != VK_CREF
        CHECK(FLD(o) == (i == unread ? w : w2) + i, "a write through the received reference is not visible to the sender");
# else
        CHECK(FLD(o) == w + i, "object changed behind the sender");
# endif
      }
    });
    if (it) {
      for (Pull::iterator i = begin(src), e = end(src); i != e; ++i) {
        CHECK(got < n, "more references received than sent");
        CHECK(same(*i, (*objs[idx[got]])) && same(*i.operator->(), (*objs[idx[got]])), "iterator refers to another object");
        CHECK(FLD(*i) == w + got, "write of the sender not visible");
# if VK != VK_CREF
        FLD(*i) = w2 + got;
# endif
        ++got;
        sym_cover("iter");
      }
    } else {
      while (src) {
        CHECK(got < n, "more references received than sent");
        if (got == unread) { ++got; src(); sym_cover("not read"); continue; }
        V r = src.get();
        V r2 = src.get();
        CHECK(same(r, (*objs[idx[got]])) && same(r2, r), "get() refers to another object");
        CHECK(FLD(r) == w + got, "write of the sender not visible");
# if VK != VK_CREF
        FLD(r) = w2 + got;
# endif
        ++got;
        src();
        sym_cover("get");
      }
    }
  }
#else
  {
    Push sink = make<Push>([&](Pull &src) {
      if (it) {
        for (auto &r : src) {
          CHECK(same(r, (*objs[idx[got]])), "iterator refers to another object");
          CHECK(FLD(r) == w + got, "write of the caller not visible");
# if VK != VK_CREF
          FLD(r) = w2 + got;
# endif
          ++got;
          sym_cover("iter");
        }
      } else for (;;) {
        if (got == unread) { ++got; src(); sym_cover("not read"); continue; }
        V r = src.get();
        CHECK(same(r, (*objs[idx[got]])) && same(src.get(), r), "get() refers to another object");
        CHECK(FLD(r) == w + got, "write of the caller not visible");
# if VK != VK_CREF
        FLD(r) = w2 + got;
# endif
        ++got;
        sym_cover("get");
        src();
      }
    });
    for (unsigned i = 0; i < n; ++i) {
      O &o = (*objs[idx[i]]);
      FLD(o) = w + i;
      sink(o);
      CHECK(got == i + 1, "reference not received");
# if VK != VK_CREF
      CHECK(FLD(o) == (i == unread ? w : w2) + i, "a write through the received reference is not visible to the caller");
# else
      CHECK(FLD(o) == w + i, "object changed behind the caller");
# endif
    }
  }
#endif
  CHECK(got == n, "number of references received");
  CHECK(tr_made == made0, "a reference coroutine copied the object");
  if (VK != VK_IREF) CHECK(tr_live == 3, "a reference coroutine destroyed the object");
}
