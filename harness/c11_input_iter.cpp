// C11: input iterators
#include "sendrecv.hpp"
#include <algorithm>
#include <iterator>
#ifndef DIR
#define DIR 0
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
static uint64_t p[N + 1];
static unsigned n, got = 0, resumed = 0, sent = 0;
static void item(O &o, O *arrow) {
  CHECK(got < n, "iteration yields more values than were sent");
  CHECK(val(o) == CODE(p[got]) && intact(o), "iteration yields a wrong value");
  CHECK(std::addressof(o) == arrow, "operator-> and operator* disagree");
}
static void item(O const &o, O const *arrow) {
  CHECK(got < n, "iteration yields more values than were sent");
  CHECK(val(o) == CODE(p[got]) && intact(o), "iteration yields a wrong value");
  CHECK(std::addressof(o) == arrow, "operator-> and operator* disagree");
}
// iterate the rest of a source whose current value is number `got`; true if end was reached
static bool consume(Pull &src, unsigned style) {
  if (style == 0) {
    for (auto &x : src) { item(x, std::addressof(x)); ++got; sym_cover("range-for"); }
    return true;
  }
  typedef std::iterator_traits<Pull::iterator> Traits;
  static_assert(std::is_same<Traits::iterator_category, std::input_iterator_tag>::value, "category");
  if (style == 3) {             // an algorithm
    std::for_each(begin(src), end(src), [](Traits::reference x) { item(x, std::addressof(x)); ++got; });
    sym_cover("for_each");
    return true;
  }
  if (style == 4) {             // a new iterator for every element
    for (;;) {
      Pull::iterator a = begin(src), b = src.begin();
      CHECK(a == b, "two iterators of one coroutine differ");
      if (a == end(src)) break;
      item(*a, b.operator->());
      unsigned r0 = resumed;
      ++got;
      Pull::iterator c(a), d;
      d = c;
      CHECK(d == a && d != src.end(), "a copy of an iterator differs");
      CHECK(resumed == r0, "copying an iterator resumes the coroutine");
      ++d;
      CHECK(resumed == r0 + 1, "an increment does not resume the coroutine exactly once");
    }
    sym_cover("fresh");
    return true;
  }
  Pull::iterator i = style == 1 ? begin(src) : src.begin();
  Pull::iterator e = style == 1 ? end(src) : src.end();
  CHECK(e == Pull::iterator(), "end() differs from a default-constructed iterator");
  while (i != e) {
    CHECK(!(i == e), "== and != disagree");
    for (unsigned r = sym_choice("derefs", 3); r > 0; --r) item(*i, i.operator->());
    item(*i, i.operator->());
    unsigned r0 = resumed;
    unsigned g = got++;
    if (sym_choice("post", 2)) { i++; sym_cover("post"); }
    else { Pull::iterator &q = ++i; CHECK(&q == &i, "++i does not return i"); sym_cover("pre"); }
    CHECK(resumed == r0 + 1, "an increment does not resume the coroutine exactly once");
    (void)g;
  }
  CHECK(i == e, "== and != disagree");
  return true;
}
#if DIR == 0
// iterators of two coroutines
static void two() {
  unsigned na = sym_pick("first yields", 3), nb = sym_pick("second yields", 3), skipa = sym_pick("first advanced", 2);
  uint64_t x = sym_u64("payload", BITS);
  unsigned got2 = 0;
  int live0 = tr_live;
  {
    Pull a = make<Pull>([&](Push &s) { for (unsigned i = 0; i < na; ++i) send(s, i, x); });
    Pull b = make<Pull>([&](Push &s) { for (unsigned i = 0; i < nb; ++i) send(s, i + 1, x); });
    if (skipa && a) { a(); --na; }
    Pull::iterator i = begin(a), j = begin(b), e = end(a), f = end(b);
    CHECK(e == f, "the end() of two coroutines differ");
    CHECK((i == e) == (na == 0) && (j == e) == (nb == 0), "begin() equals end() although the coroutine has a value");
    if (na && nb) { CHECK(i != j && !(i == j), "iterators of two coroutines compare equal"); sym_cover("two sources"); }
    if (na == 0 && nb == 0) CHECK(i == j && !(i != j), "iterators of finished coroutines differ");
    if ((na == 0) != (nb == 0)) CHECK(i != j && !(i == j), "an iterator with a value equals one at the end");
    CHECK(i == begin(a) && j == begin(b) && !(i != i), "two iterators of one coroutine differ");
    Pull::iterator k(i);
    i = j;                      // now iterates over b
    CHECK(i == j && k == begin(a), "assigning an iterator");
    for (; i != e; ++i) { CHECK(val(*i) == CODE(x) && intact(*i), "iteration yields a wrong value"); ++got2; }
    CHECK(got2 == nb, "an assigned iterator does not iterate its new coroutine");
    if (na) CHECK(!!a, "the other coroutine was resumed");
    Pull m(std::move(a));       // ranges follow the coroutine
    CHECK((begin(m) == end(m)) == (na == 0), "begin() after a move");
  }
#if !IS_REF
  CHECK(tr_live == live0, "values leaked");
#endif
}
#endif
extern "C" void harness() {
#if DIR == 0
  cells();
  if (sym_pick("two sources", 2)) { two(); return; }
#endif
  n = sym_pick("count", N + 1);
  for (unsigned i = 0; i < n; ++i) p[i] = sym_u64("payload", BITS);
  unsigned skip = sym_pick("consumed before begin()", 2);
  unsigned style = sym_pick("style", 5);
  int live0;
  {
    live0 = tr_live;
#if DIR == 0
    Pull src = make<Pull>([&](Push &sink) {
      for (unsigned i = 0; i < n; ++i) { send(sink, i, p[i]); ++resumed; }
    });
    if (skip && src) { ++got; src(); }
    bool e = consume(src, style);
    CHECK(got == n, "iteration ends before all values were seen");
    CHECK(e && !src, "end() reached although the coroutine is not finished");
    CHECK(src.begin() == src.end() && begin(src) == end(src), "begin() of a finished coroutine is not end()");
    if (n == 0) sym_cover("empty");
#else
    bool in = false;
    {
      Push sink = make<Push>([&](Pull &src) {
        in = true;
        if (skip) { ++got; src(); }
        consume(src, style);
        CHECK(false, "iteration inside a push coroutine ended although the caller did not finish");
      });
      for (unsigned i = 0; i < n; ++i) {
        ++resumed;
        sent = i + 1;
        send(sink, i, p[i]);
        CHECK(got == i + 1, "the function did not read up to the value just sent");
      }
    }
    if (n > 0) { CHECK(in, "not entered"); sym_cover("push side"); }
#endif
  }
#if !IS_REF
  CHECK(tr_live == live0, "values leaked");
#endif
}
