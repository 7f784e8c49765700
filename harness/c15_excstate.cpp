// C15: the exception-handling state of both sides stays consistent
#include "sendrecv.hpp"
#ifndef DIR
#define DIR 0
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
static int in_flight() {
#if __cplusplus >= 201703L
  return std::uncaught_exceptions();
#else
  return std::uncaught_exception() ? 1 : 0;
#endif
}
struct Inner { Tr t; explicit Inner(uint64_t x) : t(x) {} };
struct Outer { Tr t; explicit Outer(uint64_t x) : t(x) {} };
static uint64_t x_in, x_out;
static unsigned plan, m;
static int guard_flight = -1, guards = 0, body_flight0 = -1;
struct Guard { ~Guard() { ++guards; guard_flight = in_flight(); } };
static void yield_(Peer &p, unsigned i) {
#if DIR == 0
  send(p, i, i);
#else
  (void)i; p();
#endif
}
static void body(Peer &p) {
  Guard g;
  body_flight0 = in_flight();
  for (unsigned i = 0; i < m; ++i) {
    int f = in_flight();
    yield_(p, i);
    CHECK(in_flight() <= 2, "exceptions in flight accumulate");
    (void)f;
  }
  if (plan == 1) throw Inner(x_in);
  if (plan == 2) { try { throw Inner(x_in); } catch (Inner &e) { CHECK(e.t.v == x_in, "exception contents"); } yield_(p, m); }
  if (plan == 3) { try { throw Inner(x_in); } catch (...) { } throw Inner(x_in + 1); }
  if (plan == 4) { std::exception_ptr ep; try { throw Inner(x_in); } catch (...) { ep = std::current_exception(); } yield_(p, m); try { std::rethrow_exception(ep); } catch (Inner &e) { CHECK(e.t.v == x_in, "saved exception changed"); } }
}
static unsigned resumes;
static std::exception_ptr kept;
static bool kept_any = false;
// operate a whole coroutine life; every step leaves the exception state alone
static void life(bool keep) {
  const int f0 = in_flight();
  const std::exception_ptr c0 = std::current_exception();
#define SAME(m_) do { CHECK(in_flight() == f0, m_ ": number of exceptions in flight changed"); CHECK(std::current_exception() == c0, m_ ": current exception changed"); } while (0)
  bool constructed = false;
  try {
    Own o = make<Own>(&body);
    constructed = true;
    SAME("construction");
    for (unsigned k = 0; k < resumes && o; ++k) {
      try {
#if DIR == 0
        o();
#else
        send(o, k, k);
#endif
        SAME("resumption");
      } catch (Inner &e) {
        CHECK(e.t.v == (plan == 3 ? x_in + 1 : x_in), "exception contents");
        CHECK(in_flight() == f0, "a handled exception is still in flight");
        CHECK(std::current_exception() != c0, "no current exception in its handler");
        if (keep) { kept = std::current_exception(); kept_any = true; }
        sym_cover("thrown by resumption");
        if (sym_choice("destroy inside the handler", 2)) { Own t(std::move(o)); sym_cover("destroyed in handler"); }
        CHECK(e.t.v == (plan == 3 ? x_in + 1 : x_in), "exception destroyed while handled");
      }
      SAME("after the handler");
    }
    if (o) sym_cover("destroyed suspended");
  } catch (Inner &e) {
    CHECK(!constructed, "destruction threw");
    CHECK(e.t.v == (plan == 3 ? x_in + 1 : x_in), "exception contents");
    sym_cover("thrown by constructor");
  } catch (...) { CHECK(false, "an internal exception became visible"); }
  SAME("destruction");
  CHECK(kept_any == (kept != nullptr), "harness");
}
struct InDtor { bool keep; ~InDtor() { life(keep); } };
extern "C" void harness() {
  cells();
  Balance bal;
  x_in = sym_u64("inner", 64);
  x_out = sym_u64("outer", 64);
  plan = sym_pick("plan", 5);
  m = sym_pick("suspensions", N + 1);
  resumes = sym_pick("resumptions", N + 3);
  unsigned where = sym_pick("caller", 4);
  bool keep = sym_pick("keep the exception", 2);
  if (where == 0) life(keep);
  else if (where == 1) {
    try { throw Outer(x_out); }
    catch (Outer &e) { life(keep); CHECK(e.t.v == x_out, "the exception being handled was damaged"); }
    sym_cover("in a handler");
  } else if (where == 2) {
    try { InDtor d{ keep }; throw Outer(x_out); }
    catch (Outer &e) { CHECK(e.t.v == x_out, "the exception in flight was damaged"); }
    sym_cover("while unwinding");
  } else {
    try { try { throw Outer(x_out); } catch (Outer &) { life(keep); throw; } }
    catch (Outer &e) { CHECK(e.t.v == x_out, "the rethrown exception was replaced"); }
    sym_cover("before a rethrow");
  }
  CHECK(in_flight() == 0, "an exception stays in flight");
  CHECK(!std::current_exception(), "an exception stays current");
  if (kept_any) {
    try { std::rethrow_exception(kept); }
    catch (Inner &e) { CHECK(e.t.v == (plan == 3 ? x_in + 1 : x_in), "a kept exception was destroyed or changed"); }
    kept = nullptr;
    sym_cover("kept");
  }
  bal.verify();
}
