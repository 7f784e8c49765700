// C16: the callable is taken by value, run at most once, every copy destroyed once
#include "sendrecv.hpp"
#include <functional>
#ifndef DIR
#define DIR 0
#endif
#ifndef EXPL
#define EXPL 0
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
static uint64_t want;
static unsigned calls = 0, m = 0, how = 0;
struct Boom {};
static void run(Peer &p) {
  ++calls;
  for (unsigned i = 0; i < m; ++i) {
#if DIR == 0
    send(p, i, i);
#else
    p();
#endif
  }
  if (how) throw Boom();
}
static void plain(Peer &p) { run(p); }
struct F : Tr {               // destructive move, observable copies
  explicit F(uint64_t x) : Tr(x) {}
  F(F const &o) = default;
  F(F &&o) = default;
  void operator()(Peer &p) {
    alive();
    CHECK(v == want && moved == 0, "the callable that runs does not have the captured state");
    run(p);
    alive();
    CHECK(v == want, "the callable is destroyed while it runs");
  }
};
struct CF : Tr {              // callable only as const
  explicit CF(uint64_t x) : Tr(x) {}
  CF(CF const &o) = default;
  CF(CF &&o) = default;
  void operator()(Peer &p) const { alive(); CHECK(v == want && moved == 0, "the callable that runs does not have the captured state"); run(p); }
};
struct MF : Mo {              // move-only
  explicit MF(uint64_t x) : Mo(x) {}
  MF(MF &&o) = default;
  void operator()(Peer &p) { alive(); CHECK(v == want && moved == 0, "the callable that runs does not have the captured state"); run(p); }
};
struct CpF : Tr {             // copyable only (no move constructor)
  explicit CpF(uint64_t x) : Tr(x) {}
  CpF(CpF const &o) : Tr(static_cast<Tr const &>(o)) {}
  void operator()(Peer &p) { alive(); CHECK(v == want && moved == 0, "the callable that runs does not have the captured state"); run(p); }
};
template <std::size_t A, std::size_t W>
struct alignas(A) FatF : Fat<A, W> {   // big, over-aligned callables
  explicit FatF(uint64_t x) : Fat<A, W>(x) {}
  FatF(FatF const &o) = default;
  FatF(FatF &&o) = default;
  void operator()(Peer &p) { this->alive(); CHECK(this->v == want && this->moved == 0 && this->whole(), "the callable that runs does not have the captured state"); run(p); this->alive(); CHECK(this->whole(), "the callable's state is damaged while it runs"); }
};
struct RF : Tr {              // returns something
  explicit RF(uint64_t x) : Tr(x) {}
  Tr operator()(Peer &p) { alive(); CHECK(v == want && moved == 0, "the callable that runs does not have the captured state"); run(p); return Tr(1); }
};
template <typename G> static void life(G build) {
  unsigned resumes = sym_pick("resumptions", N + 2);
  unsigned seen = 0;
  try {
    Own o = build();
    seen = 1;
    CHECK(calls == (DIR == 0 ? 1u : 0u), "number of calls after construction");
    for (unsigned k = 0; k < resumes && o; ++k) {
      try {
#if DIR == 0
        o();
#else
        send(o, k, k);
#endif
      } catch (Boom &) { CHECK(how == 1, "exception"); sym_cover("threw"); }
      CHECK(calls == 1, "the callable runs more than once");
    }
    if (o && calls == 0) sym_cover("never entered");
    if (o && calls == 1) sym_cover("destroyed suspended");
    if (!o) sym_cover("finished");
  } catch (Boom &) { CHECK(how == 1 && seen == 0, "exception"); }
}
extern "C" void harness() {
  cells();
  Balance bal;
  want = sym_u64("captured", 64);
  m = sym_pick("suspensions", N + 1);
  how = sym_pick("ends by throwing", 2);
  unsigned form = sym_pick("form", 18);
  {
    SA sa;
#if EXPL
# define MK(x) Own(sa, x)
#else
# define MK(x) Own(x)
#endif
    int l0 = tr_live;
    if (form == 0) { F f(want); life([&] { return MK(f); }); f.alive(); CHECK(f.v == want && f.moved == 0, "an lvalue callable was changed"); CHECK(tr_live == l0 + 1, "copies of the callable are not destroyed exactly once"); sym_cover("lvalue"); }
    else if (form == 1) { F const f(want); life([&] { return MK(f); }); f.alive(); CHECK(f.v == want && f.moved == 0, "a const callable was changed"); CHECK(tr_live == l0 + 1, "copies of the callable are not destroyed exactly once"); }
    else if (form == 2) { F f(want); int c0 = tr_copies; life([&] { return MK(std::move(f)); }); f.alive(); CHECK(tr_copies == c0, "an rvalue callable is copied instead of moved"); CHECK(tr_live == l0 + 1, "copies of the callable are not destroyed exactly once"); sym_cover("rvalue"); }
#if P_PLAIN
    else if (form == 3) sym_assume(false);
#else
    else if (form == 3) { MF f(want); life([&] { return MK(std::move(f)); }); f.alive(); CHECK(tr_live == l0 + 1, "copies of the callable are not destroyed exactly once"); sym_cover("move-only"); }
#endif
    else if (form == 4) { life([&] { return MK(plain); }); sym_cover("function"); }
    else if (form == 5) { void (*fp)(Peer &) = &plain; life([&] { return MK(fp); }); CHECK(fp == &plain, "a function pointer was changed"); }
    else if (form == 6) { CF const f(want); life([&] { return MK(f); }); CHECK(f.v == want && f.moved == 0, "a const callable was changed"); }
    else if (form == 7) { CF f(want); life([&] { return MK(f); }); CHECK(f.v == want && f.moved == 0, "an lvalue callable was changed"); }
    else if (form == 8) { CpF f(want); life([&] { return MK(f); }); CHECK(f.v == want && f.moved == 0, "an lvalue callable was changed"); sym_cover("copy-only"); }
    else if (form == 9) {       // used for two coroutines
      F f(want);
      life([&] { return MK(f); });
      calls = 0;
      m = 0;
      life([&] { return MK(f); });
      CHECK(f.v == want && f.moved == 0, "an lvalue callable was changed");
      sym_cover("reused");
    } else if (form == 10) {    // lambda with captures
      Tr a(want);
      uint64_t b = ~want;
      auto l = [a, b](Peer &p) { a.alive(); CHECK(a.v == want && a.moved == 0 && b == ~want, "captured state lost"); run(p); };
      life([&] { return MK(l); });
      calls = 0;
      life([&] { return MK(std::move(l)); });
    } else if (form == 12) { FatF<32, 300> f(want); life([&] { return MK(f); }); f.alive(); CHECK(f.v == want && f.moved == 0 && f.whole(), "an lvalue callable was changed"); CHECK(tr_live == l0 + 1, "copies of the callable are not destroyed exactly once"); sym_cover("big"); }
    else if (form == 13) { FatF<16, 3> f(want); life([&] { return MK(std::move(f)); }); f.alive(); CHECK(tr_live == l0 + 1, "copies of the callable are not destroyed exactly once"); }
    else if (form == 14) { RF f(want); life([&] { return MK(f); }); CHECK(f.v == want && f.moved == 0, "an lvalue callable was changed"); CHECK(tr_live == l0 + 1, "copies of the callable are not destroyed exactly once"); sym_cover("returns a value"); }
    else if (form == 15) { F f(want); int m0 = tr_made; life([&] { return MK(std::ref(f)); }); CHECK(f.v == want && f.moved == 0, "a callable given by std::ref was changed"); (void)m0; sym_cover("std::ref"); }
    else if (form == 16) { std::function<void(Peer &)> g{ F(want) }; life([&] { return MK(g); }); CHECK(!!g, "an lvalue std::function was emptied"); calls = 0; life([&] { return MK(std::move(g)); }); sym_cover("std::function"); }
    else if (form == 17) {      // a temporary
      life([&] { return MK(F(want)); });
      sym_cover("temporary");
    } else {                    // the stored copy is independent of the original
      alignas(F) unsigned char buf[sizeof(F)];
      F *f = new (buf) F(want);
      life([&]() -> Own {
        struct D { F *f; ~D() { f->~F(); } } d{ f };
        return MK(*f);
      });
      sym_cover("original gone");
    }
    CHECK(calls <= 1, "the callable runs more than once");
    CHECK(tr_live == l0, "copies of the callable are not destroyed exactly once");
  }
  bal.verify();
}
