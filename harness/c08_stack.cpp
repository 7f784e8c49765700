// C08: one allocate(), one deallocate() of exactly that stack, after everything on it is gone
#include "sendrecv.hpp"
#ifndef DIR
#define DIR 0
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
struct Boom {};
struct CopyThrow {};
static int on_stack = 0, fn_live = 0, fn_throw_in = 0;
static int probe() { return on_stack; }
struct Local { Local() { ++on_stack; } Local(Local const &) = delete; ~Local() { --on_stack; } };
struct Fn {   // callable with observable copies
  unsigned m, how; unsigned *left;
  Fn(unsigned a, unsigned b, unsigned *c) : m(a), how(b), left(c) { ++fn_live; }
  Fn(Fn const &o) : m(o.m), how(o.how), left(o.left) {
    if (fn_throw_in > 0 && --fn_throw_in == 0) throw CopyThrow();
    ++fn_live;
  }
  Fn(Fn &&o) noexcept : m(o.m), how(o.how), left(o.left) { ++fn_live; }
  ~Fn() { --fn_live; }
  void operator()(Peer &p) {
    Local a;
    for (unsigned i = 0; i < m; ++i) {
      Local b;
#if DIR == 0
      send(p, i, i);
#else
      p();
#endif
      if (left) --*left;
    }
    if (how) throw Boom();
  }
};
extern "C" void harness() {
  cells();
  Balance bal;
  unsigned m = sym_pick("suspensions", N + 1);
  unsigned how = sym_pick("ends by throwing", 2);
  unsigned resumes = sym_pick("resumptions", N + 2);
  unsigned scen = sym_pick("scenario", 7);
  unsigned form = sym_pick("allocator passed as", 3);  // rvalue, lvalue, default
  unsigned left = m;
  sa_probe = &probe;
  if (form == 2) sa_probe = nullptr;
  int extra = 0;
  {
    SA mine(SA_SIZE);
    int id = mine.id;
    Fn fn(m, how, &left);
    int s0 = sa_live;
    bool threw = false;
    int heap0 = sym_live_heap(), stacks0 = sym_live_stacks();
    auto build = [&](Fn const *lv, Fn *rv) -> Own {
      if (lv) {
        switch (form) {
          case 0: return Own(SA(mine), *lv);
          case 1: return Own(mine, *lv);
          default: return Own(*lv);
        }
      }
      switch (form) {
        case 0: return Own(SA(mine), std::move(*rv));
        case 1: return Own(mine, std::move(*rv));
        default: return Own(std::move(*rv));
      }
    };
    if (scen == 5) {          // allocate() throws
      if (form == 2) sym_assume(false);
      sa_throw_in = 1;
      try { Own o = build(&fn, nullptr); CHECK(false, "allocate() threw but construction succeeded"); } catch (SAThrow &) { threw = true; } catch (...) { CHECK(false, "foreign exception"); }
      CHECK(threw && sa_allocs == 0 && sa_deallocs == 0, "deallocate() after a failed allocate()");
      sym_cover("allocate throws");
    } else if (scen == 6) {   // copying the callable throws
      fn_throw_in = 1;
      try { Own o = build(&fn, nullptr); CHECK(false, "copy threw but construction succeeded"); } catch (CopyThrow &) { threw = true; } catch (...) { CHECK(false, "foreign exception"); }
      CHECK(threw, "exception lost");
      CHECK(sa_allocs == sa_deallocs && sym_live_heap() == heap0, "the stack leaks when copying the callable throws");
      sym_cover("callable copy throws");
    } else {
      try {
        Own o = (scen & 1) ? build(&fn, nullptr) : build(nullptr, &fn);
        CHECK(form == 2 || sa_allocs == 1, "construction does not allocate exactly one stack");
        if (!!o) CHECK(sym_live_stacks() == stacks0 + 1, "construction does not allocate exactly one stack");
        bool over = DIR == 0 ? m == 0 : false;
        for (unsigned k = 0; k < resumes && o && !over; ++k) {
          int d0 = sa_deallocs;
          try {
#if DIR == 0
            o();
#else
            send(o, k, k);
#endif
          } catch (Boom &) { CHECK(how && left == 0, "exception at a wrong place"); over = true; }
          if (o) CHECK(sa_deallocs == d0, "the stack is given back while the coroutine is suspended");
        }
        if (scen == 2) { Own t(std::move(o)); CHECK(form == 2 || over || !t || sa_deallocs == 0, "moving gives the stack back"); }
        else if (scen == 3) {
          Own t(SA(mine), [](Peer &p) {
#if DIR == 0
            send(p, 7, 7);
#else
            p();
#endif
          });
          extra = 1;
          o = std::move(t);
          if (form != 2) CHECK(sa_deallocs == 1, "assigning over a coroutine does not give its stack back");
          else CHECK(sym_live_stacks() == stacks0 + 1, "assigning over a coroutine does not give its stack back");
          CHECK(!!o, "assigned coroutine is invalid");
          sym_cover("assigned over");
        } else if (scen == 4) { Own t(std::move(o)); o = std::move(t); }
        sym_cover(over ? "finished" : "destroyed suspended");
      } catch (Boom &) { CHECK(DIR == 0 && m == 0 && how, "exception at a wrong place"); sym_cover("constructor threw"); }
    }
    CHECK(sa_allocs == (scen == 5 || (scen == 6 && sa_allocs == 0) ? 0 : (form == 2 ? 0 : 1) + extra), "wrong number of allocate() calls");
    CHECK(sa_deallocs == sa_allocs, "a stack is not given back exactly once");
    CHECK(sa_objs_at_dealloc == 0, "a stack is given back while objects on it are alive");
    CHECK(fn_live == 1, "the callable is not destroyed exactly once");
    CHECK(sa_live == s0, "copies of the allocator are not destroyed exactly once");
    CHECK(mine.id == id && mine.self == &mine, "the caller's allocator was changed");
  }
  bal.verify();
}
