// C06: an exception leaving the coroutine-function reaches exactly its resumer
#include "sendrecv.hpp"
#include <stdexcept>
#include <new>
#ifndef DIR
#define DIR 0
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
struct Base : std::exception {
  virtual int code() const noexcept { return 1; }
  const char *what() const noexcept override { return "base"; }
};
struct Derived : Base {
  uint64_t p; Tr t;
  explicit Derived(uint64_t x) : p(x), t(x) {}
  int code() const noexcept override { return 2; }
};
template <typename S> struct From : S {       // derived from a standard exception
  uint64_t p;
  template <typename... A> explicit From(uint64_t x, A... a) : S(a...), p(x) {}
};
typedef From<std::runtime_error> RE; typedef From<std::logic_error> LE; typedef From<std::bad_alloc> BA;
struct Pod { uint64_t p; };
enum class En : uint64_t {};
struct Left { uint64_t l; Left() : l(3) {} virtual ~Left() {} };
struct Multi : Left, Base {                    // std::exception is not the first base
  uint64_t p;
  explicit Multi(uint64_t x) : p(x) {}
};
static unsigned kind; static uint64_t payload; static int inner = 0;
static void raise_() {
  switch (kind) {
    case 0: throw (uint64_t)payload;
    case 1: throw Tr(payload);
    case 2: throw Derived(payload);
    case 3:  // rethrown by a handler of the coroutine-function
      try { throw Tr(payload); } catch (Tr &) { throw; }
    case 4:  // replaced by a handler
      try { throw 17; } catch (int) { throw Tr(payload); }
    case 5:  // caught inside: nothing leaves
      try { throw Tr(payload); } catch (Tr &e) { if (e.v == payload) ++inner; }
      return;
    case 7: throw RE(payload, "x");
    case 8: throw LE(payload, "x");
    case 9: throw BA(payload);
    case 10: throw &payload;
    case 11: throw Mo(payload);
    case 12: throw static_cast<En>(payload);
    case 13: throw Pod{ payload };
    case 14: throw Multi(payload);
    case 15: throw std::runtime_error("plain");
    default:  // through a catch of std::exception& that rethrows
      try { throw Derived(payload); } catch (std::exception &) { throw; }
  }
}
static void nested(int d) { Tr guard(5); if (d) nested(d - 1); else raise_(); }
extern "C" void harness() {
  cells();
  Balance bal;
  unsigned m = sym_pick("suspensions before", N + 1);
  kind = sym_pick("exception", 16);
  payload = sym_u64("payload", 64);
  unsigned depth = sym_pick("depth", 2) * 2;
  unsigned extra = sym_pick("suspends after a caught exception", 2);
  unsigned via = sym_pick("via iterator", 2);
#if IS_VOID
  sym_assume(via == 0);
#endif
  unsigned caught = 0, resumes = 0;
  bool leaves = kind != 5;
  {
    alignas(Own) unsigned char mem[sizeof(Own)];
    Own *own = nullptr;
    auto body = [&](Peer &peer) {
      for (unsigned i = 0; i < m; ++i) {
#if DIR == 0
        send(peer, i, i);
#else
        peer();
#endif
      }
      nested((int)depth);
      if (extra) {
#if DIR == 0
        send(peer, m, m);
#else
        peer();
#endif
      }
    };
    auto guarded = [&](unsigned at, void (*f)(void *), void *arg, bool must) -> bool {
      (void)at;
      bool got = false;
      try { f(arg); }
      catch (RE &e) { got = true; CHECK(kind == 7 && e.p == payload, "another exception arrived"); }
      catch (LE &e) { got = true; CHECK(kind == 8 && e.p == payload, "another exception arrived"); }
      catch (BA &e) { got = true; CHECK(kind == 9 && e.p == payload, "another exception arrived"); }
      catch (uint64_t *e) { got = true; CHECK(kind == 10 && e == &::payload, "another exception arrived"); }
      catch (Mo &e) { got = true; e.alive(); CHECK(kind == 11 && e.v == payload && e.moved == 0, "another exception arrived"); }
      catch (En &e) { got = true; CHECK(kind == 12 && static_cast<uint64_t>(e) == payload, "another exception arrived"); }
      catch (Pod &e) { got = true; CHECK(kind == 13 && e.p == payload, "another exception arrived"); }
      catch (Multi &e) { got = true; CHECK(kind == 14 && e.p == payload && e.l == 3 && e.code() == 1, "another exception arrived"); }
      catch (std::runtime_error &e) { got = true; CHECK(kind == 15, "an exception was sliced"); CHECK(e.what()[0] == 'p', "exception contents changed"); }
      catch (uint64_t &x) { got = true; CHECK(kind == 0 && x == payload, "another exception arrived"); }
      catch (Tr &t) { got = true; t.alive(); CHECK((kind == 1 || kind == 3 || kind == 4) && t.v == payload && t.moved == 0, "another exception arrived"); }
      catch (Base &b) {
        got = true;
        CHECK((kind == 2 || kind == 6) && b.code() == 2, "exception was sliced or replaced");
        CHECK(static_cast<Derived &>(b).p == payload && static_cast<Derived &>(b).t.v == payload, "exception contents changed");
      } catch (...) { CHECK(false, "an exception of a foreign type arrived"); }
      CHECK(got == must, must ? "the exception did not reach the resumer" : "an exception arrived at a wrong place");
      if (got) ++caught;
      return got;
    };
    struct Build { void *mem; Own **own; decltype(body) *b; static void go(void *p) { Build &x = *static_cast<Build *>(p); *x.own = new (x.mem) Own(make<Own>(*x.b)); } } bld{ mem, &own, &body };
    bool over = guarded(0, &Build::go, &bld, DIR == 0 && m == 0 && leaves);
    if (over) { CHECK(own == nullptr, "constructed although its constructor threw"); sym_cover("constructor"); }
    else {
      CHECK(own != nullptr, "construction failed");
      unsigned first = DIR == 0 ? 1 : 0;   // the pull constructor is the first entry
      struct Step { Own *o; unsigned k; unsigned via; static void go(void *p) {
        Step &x = *static_cast<Step *>(p);
#if IS_VOID
        (*x.o)();
#elif DIR == 0
        if (x.via) { Own::iterator i = x.o->begin(); ++i; } else (*x.o)();
#else
# if COPYABLE
        if (x.via) { Own::iterator i(x.o);
#  if IS_REF
          O &o = cell(x.k); *i = o;
#  else
          *i = mk(x.k);
#  endif
        } else
# endif
          send(*x.o, x.k, x.k);
#endif
      } };
      unsigned total = m + (extra && !leaves ? 1 : 0) + 1;   // entries until the function has ended
      for (unsigned e = first; e < total; ++e) {
        CHECK(!!*own, "coroutine ended early");
        Step st{ own, e, via };
        bool must = leaves && e == m;
        ++resumes;
        bool got = guarded(e, &Step::go, &st, must);
        if (got) sym_cover("resumer");
      }
      CHECK(!*own, "coroutine still valid after its function ended");
      CHECK(inner == (kind == 5 ? 1 : 0), "the coroutine-function's own handler did not run");
      if (kind == 5) sym_cover("kept inside");
      struct Kill { Own *o; static void go(void *p) { static_cast<Kill *>(p)->o->~Own(); } } kill{ own };
      guarded(99, &Kill::go, &kill, false);
    }
  }
  CHECK(caught == (leaves ? 1u : 0u), "the exception was not thrown exactly once");
  bal.verify();
}
