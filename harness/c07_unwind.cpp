// C07: destroying an unfinished coroutine unwinds its stack exactly once
#include "sendrecv.hpp"
#ifndef DIR
#define DIR 0
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
enum { MAXG = 24 };
static int stk[MAXG], sp_ = 0, made = 0;      // guards alive, in order of construction
static bool destroying = false, dead_code = false;
static int outside_handlers = 0, handlers_open = 0;
struct Guard {
  int id;
  Guard() : id(made++) { CHECK(sp_ < MAXG, "harness"); stk[sp_++] = id; }
  Guard(Guard const &) = delete;
  ~Guard() {
    CHECK(sp_ > 0 && stk[sp_ - 1] == id, "automatic objects are not destroyed exactly once in reverse order");
    --sp_;
  }
};
struct CapGuard {  // travels with the callable
  int *n;
  explicit CapGuard(int *p) : n(p) { ++*n; }
  CapGuard(CapGuard const &o) : n(o.n) { ++*n; }
  CapGuard(CapGuard &&o) noexcept : n(o.n) { ++*n; }
  ~CapGuard() { --*n; }
};
static unsigned susp = 0;
static void stop(Peer &p) {
  ++susp;
#if DIR == 0
  send(p, susp, susp);
#else
  p();
#endif
  if (destroying) dead_code = true;
}
static void level(Peer &p, unsigned d) {
  Guard g1;
  if (sym_choice("suspend before", 2)) stop(p);
  unsigned wrap = sym_choice("frame", 4);
  if (wrap == 1) {
    ++handlers_open;
    try { Guard g2; if (d < DEPTH) level(p, d + 1); else stop(p); }
    catch (...) { ++outside_handlers; throw; }
    --handlers_open;
  } else if (wrap == 2) {
    ++handlers_open;
    try { Guard g2; if (d < DEPTH) level(p, d + 1); else stop(p); }
    catch (boost::context::detail::forced_unwind const &) { ++outside_handlers; Guard g3; throw; }
    --handlers_open;
  } else if (wrap == 3) {
    try { Guard g2, g3; if (d < DEPTH) level(p, d + 1); else stop(p); }
    catch (std::exception &) { dead_code = true; }
    catch (int) { dead_code = true; }
  } else if (d < DEPTH) level(p, d + 1);
  else stop(p);
  Guard g4;
}
struct OwnerEx {};
extern "C" void harness() {
  cells();
  Balance bal;
  unsigned entered = 0, finished = 0;
  int caps = 0;
  unsigned at = sym_pick("destroyed at suspension", DEPTH + 4);
  unsigned mode = sym_pick("how", 4);
  {
    auto body = [&](Peer &p) {
      ++entered;
      level(p, 0);
      if (destroying) dead_code = true;
      ++finished;
    };
    CapGuard cg(&caps);
    auto f = [&body, cg](Peer &p) { body(p); };
    CHECK(caps == 2, "harness");
    try {
      Own own = make<Own>(std::move(f));
      unsigned n = DIR == 0 ? 1 : 0;   // entries so far
      while (n < at && own) {
        unsigned s0 = susp;
        int g0 = sp_;
        (void)g0;
#if DIR == 0
        own();
#else
        send(own, n, n);
#endif
        ++n;
        CHECK(susp == s0 + 1 || finished, "no suspension");
      }
      int live = sp_;
      if (finished) { CHECK(sp_ == 0, "automatic objects survive the end of the coroutine-function"); CHECK(!own, "still valid"); sym_cover("finished"); }
      else if (entered) { CHECK(live > 0, "automatic objects destroyed while suspended"); sym_cover("suspended"); }
      else sym_cover("never entered");
      destroying = true;
      if (mode == 1) {            // move assignment over it
        unsigned e0 = entered;
        Own repl = make<Own>([](Peer &) {});
        own = std::move(repl);
        CHECK(sp_ == 0, "assigning over a suspended coroutine does not unwind it");
        CHECK(entered == e0, "assigning over a coroutine entered its function");
        sym_cover("assigned over");
      } else if (mode == 2) {     // owner leaves by an exception
        throw OwnerEx();
      } else if (mode == 3) {     // destroyed through another object
        Own t(std::move(own));
        CHECK(sp_ == live, "moving a coroutine unwinds it");
      }
    } catch (OwnerEx &) { sym_cover("owner unwinds"); }
    CHECK(sp_ == 0, "automatic objects not destroyed");
    CHECK(caps == 2, "captured objects not destroyed exactly once");   // cg and the moved-from callable
  }
  CHECK(caps == 0, "captured objects not balanced");
  CHECK(!dead_code, "code after the suspension point ran during destruction");
  if (!finished) CHECK(outside_handlers == handlers_open, "handlers that rethrow did not run exactly once");
  else CHECK(outside_handlers == 0, "a finished coroutine was unwound");
  if (DIR == 1 && at == 0) CHECK(entered == 0, "a push coroutine never resumed was entered");
  else CHECK(entered == 1, "coroutine-function entered a wrong number of times");
  bal.verify();
}
