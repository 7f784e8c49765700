// C12: output iterators
#include "sendrecv.hpp"
#include <algorithm>
#ifndef DIR
#define DIR 1
#endif
static uint64_t p[N + 1];
static unsigned obj_[N + 2];              // which object is assigned: a new one or the previous one
static void objects(unsigned n) {
#if IS_REF
  for (unsigned i = 1; i < n; ++i) obj_[i] = sym_choice("same object again", 2) ? obj_[i - 1] : obj_[i - 1] + 1;
#else
  (void)n;
#endif
}
#define cell(i) cell(obj_[i])
#if DIR == 0
// the push_type a pull_type's coroutine-function is given
extern "C" void harness() {
  cells();
  unsigned n = sym_pick("assignments", N + 1);
  for (unsigned i = 0; i < n; ++i) p[i] = sym_u64("payload", BITS);
  objects(n);
  unsigned style = sym_pick("style", 3), stop = sym_pick("owner stops after", N + 2);
  unsigned sent = 0, got = 0;
  int t0 = tr_live;
  {
    Pull src = make<Pull>([&](Push &sink) {
      Push::iterator it = begin(sink), e = end(sink);
      CHECK(it != e && !(it == e), "begin() of an unfinished push coroutine equals end()");
      if (style == 0) {
        for (unsigned i = 0; i < n; ++i) {
#if IS_REF
          O &o = cell(i);
          put(o, p[i]);
#else
          O o = mk(p[i]);
#endif
          ++sent;
          Push::iterator &d = *it;
          CHECK(got + 1 == sent, "dereference sent a value");
          Push::iterator &r = (d = o);
          CHECK(got == sent, "an assignment does not send exactly one value");
          CHECK(&r == &it && &d == &it, "assignment does not return the iterator");
          CHECK(it != e, "the iterator reached end() although the coroutine goes on");
          ++it;
          CHECK(got == sent, "increment sent a value");
        }
      } else if (style == 1) {
        for (unsigned i = 0; i < n; ++i) {
#if IS_REF
          O &o = cell(i);
          put(o, p[i]);
#else
          O o = mk(p[i]);
#endif
          ++sent;
          *begin(sink) = o;
          CHECK(got == sent, "an assignment does not send exactly one value");
          CHECK(begin(sink) != end(sink), "begin() of an unfinished push coroutine equals end()");
        }
      } else {
#if IS_REF
        for (unsigned i = 0; i < n; ++i) { O &o = cell(i); put(o, p[i]); ++sent; *it = o; ++it; }
#else
        std::vector<O> v;
        v.reserve(N + 1);
        for (unsigned i = 0; i < n; ++i) v.push_back(mk(p[i]));
        sent = n;
        for (O *q = v.data(); q != v.data() + n; ++q, ++it) *it = *q;
#endif
      }
      sym_cover("ran");
    });
    while (src && got < stop) {
      CHECK(got < n, "more values than assignments");
#if IS_REF
      CHECK(std::addressof(src.get()) == std::addressof(cell(got)), "another object arrived");
#endif
      CHECK(recv(src, 0) == CODE(p[got]), "a wrong value arrived");
      ++got;
      src();
    }
    if (stop > n) CHECK(got == n && !src, "number of values");
  }
#if !IS_REF
  CHECK(tr_live == t0, "values leaked");
#else
  (void)t0;
#endif
}
#else
extern "C" void harness() {
  unsigned n = sym_pick("assignments", N + 1);
  unsigned stop = sym_pick("function ends after", N + 2);
  for (unsigned i = 0; i < n; ++i) p[i] = sym_u64("payload", BITS);
  objects(n);
  unsigned got = 0, entered = 0;
  bool ended = false;
  {
    Push sink = make<Push>([&](Pull &src) {
      ++entered;
      for (;;) {
        if (got == stop) break;
#if IS_REF
        CHECK(std::addressof(src.get()) == std::addressof(cell(got)), "another object arrived");
#endif
        CHECK(recv(src, 0) == p[got], "a wrong value arrived");
        ++got;
        if (got == stop) break;
        src();
      }
      ended = true;
    });
    unsigned fresh = sym_pick("fresh iterator each time", 2);
    Push::iterator it = begin(sink), e = end(sink);
    CHECK(it != e && !(it == e), "begin() of an unfinished push coroutine equals end()");
    CHECK(entered == 0, "begin() entered the coroutine-function");
    CHECK(e == Push::iterator(), "end() differs from a default-constructed iterator");
    for (unsigned i = 0; i < n && !ended; ++i) {
      if (fresh) it = begin(sink);
      unsigned g0 = got;
      Push::iterator &d = *it;
      CHECK(&d == &it, "dereference does not return the iterator");
      CHECK(got == g0, "dereference sent a value");
#if IS_REF
      O &o = cell(i);
      o.v = p[i];
      Push::iterator &r = (*it = o);
#else
      O o = mk(p[i]);
      Push::iterator &r = (*it = o);
      CHECK(val(o) == p[i] && intact(o), "assignment changed the caller's object");
#endif
      CHECK(&r == &it, "assignment does not return the iterator");
      CHECK(got == g0 + 1 || (stop == 0 && ended), "an assignment does not send exactly one value");
      CHECK((it == e) == ended, "comparison with end() does not tell completion after an assignment");
      CHECK((it != e) == !ended, "== and != disagree");
      if (!ended) { ++it; CHECK(got == g0 + 1, "increment sent a value"); CHECK(it != e, "increment reached end()"); }
      if (ended) sym_cover("ended");
    }
    CHECK(!!sink == !ended, "validity");
    Push::iterator again = begin(sink);
    CHECK((again == end(sink)) == ended, "begin() of a finished push coroutine is not end()");
    Push::iterator again2(&sink);
    CHECK((again2 == e) == ended, "an iterator made for a finished push coroutine is not end()");
    if (!ended) sym_cover("unfinished");
  }
#if !IS_REF
  CHECK(tr_live == 0, "values leaked");
#endif
}
#endif
