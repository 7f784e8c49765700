// C23: a transfer makes no needless copy and allocates nothing
#include "sendrecv.hpp"
extern "C" uint64_t sym_heap_made();
#ifndef DIR
#define DIR 0
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
struct Boom { uint64_t x; };
static uint64_t p0;
static unsigned n, end_, how[N + 1], reads[N + 1], iter;   // iter: transfers through iterators
static int copies;          // copies the sender is entitled to, plus those of the harness
static uint64_t heap;       // blocks the harness itself made
#if !IS_VOID
static bool passed;         // the value went through an output iterator (which takes it by value)
template <typename S, typename X> static void through(S &s, X &&x) {
# if IS_REF || COPYABLE
  passed = true;
  typename S::iterator it = begin(s);
  it = std::forward<X>(x);
  passed = false;
# else
  s(std::forward<X>(x));
# endif
}
// the next value, by call or through an input iterator
static void next(Pull &p) { if (iter) { Pull::iterator it = begin(p); ++it; } else p(); }
template <typename S> static void put(S &s, unsigned i) {
  O o = mk(p0 + i);
# if IS_REF
  copies = tr_copies;
  heap = sym_heap_made();
  if (iter) through(s, o); else s(o);
# else
  // what one copy of this value costs
  int per = 0;
  uint64_t blocks = 0;
#  if COPYABLE
  if (how[i]) {
    int c0 = tr_copies;
    uint64_t h0 = sym_heap_made();
    { O t(static_cast<O const &>(o)); CHECK(val(t) == CODE(p0 + i), "copy"); }
    per = tr_copies - c0;
    blocks = sym_heap_made() - h0;
  }
#  endif
  heap = sym_heap_made() + blocks;
  copies = tr_copies + per;
  if (how[i] == 0) { if (iter) through(s, std::move(o)); else s(std::move(o)); sym_cover("rvalue"); }
#  if COPYABLE
  else if (how[i] == 1) { if (iter) through(s, o); else s(o); sym_cover("lvalue"); }
  else { O const &c = o; if (iter) through(s, c); else s(c); }
#  endif
# endif
}
static void arrived() {
  if (passed) copies = tr_copies;
  CHECK(tr_copies == copies, "a transfer copies the value needlessly");
  CHECK(sym_heap_made() == heap, "a transfer allocates memory");
}
#else
static void next(Pull &p) { p(); }
template <typename S> static void put(S &s, unsigned) { heap = sym_heap_made(); s(); }
static void arrived() { CHECK(sym_heap_made() == heap, "a transfer allocates memory"); }
#endif
// the way back: nothing may be copied either
static int back_c;
static uint64_t back_h;
static void leave() { back_c = tr_copies; back_h = sym_heap_made(); }
static void returned() {
  CHECK(tr_copies == back_c, "resuming copies a value");
  CHECK(sym_heap_made() == back_h, "resuming allocates memory");
}
static void body(Peer &p) {
#if DIR == 0
  for (unsigned i = 0; i < n; ++i) { put(p, i); returned(); }
#else
  for (unsigned i = 0; i < n; ++i) {
    arrived();
# if !IS_VOID
    if (reads[i]) { for (unsigned r = 0; r < reads[i]; ++r) { Pull::iterator it = begin(p); CHECK(val(*it) == CODE(p0 + i) && intact(*it), "value"); } CHECK(tr_copies == copies, "looking at a value copies it"); }
# endif
    leave();
    next(p);
  }
#endif
  leave();
  if (end_) throw Boom{ p0 };
}
extern "C" void harness() {
  cells();
  p0 = sym_u64("payload", BITS);
  n = sym_pick("count", N + 1);
  for (unsigned i = 0; i < n; ++i) {
    how[i] = IS_REF || IS_VOID || !COPYABLE ? 0 : sym_pick("sent as", 3);
    reads[i] = IS_VOID ? 0 : sym_pick("looked at", 3);
  }
  iter = IS_VOID ? 0 : sym_pick("through iterators", 2);
  end_ = sym_pick("ends by throwing", 2);
  bool early = sym_pick("destroyed early", 2) != 0;
  unsigned seen = 0;
  try {
    Own o = make<Own>(&body);
#if DIR == 0
    bool first = true;          // construction may allocate
    while (o) {
      if (first) heap = sym_heap_made();
      first = false;
      arrived();
      Own q(std::move(o));
      o = std::move(q);
      CHECK(tr_copies == copies && sym_heap_made() == heap, "moving a coroutine copies or allocates");
# if !IS_VOID
      for (unsigned r = 0; r < reads[seen]; ++r) { Pull::iterator it = begin(o); CHECK(val(*it) == CODE(p0 + seen) && intact(*it), "value"); }
      CHECK(tr_copies == copies, "looking at a value copies it");
# endif
      ++seen;
      if (early && seen == n) break;
      leave();
      next(o);
    }
    if (!early || n == 0) { CHECK(!end_, "exception lost"); if (n) returned(); sym_cover("finished"); }
#else
    for (seen = 0; seen < n; ++seen) {
      put(o, seen);
      returned();
    }
    CHECK(!!o || n > 0, "validity");
    if (early) sym_cover("destroyed");
    else { put(o, n); returned(); CHECK(!o && !end_, "the function ended otherwise"); sym_cover("finished"); }
#endif
  } catch (Boom &b) { CHECK(end_ == 1 && b.x == p0, "exception"); sym_cover("threw"); }
  (void)seen;
}
