// C06: exceptions of many types leave the coroutine-function
#include "sendrecv.hpp"
#include <functional>
#include <stdexcept>
#include <typeinfo>
#ifndef DIR
#define DIR 0
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
static uint64_t x;
static unsigned n, how, caught_, in_handler;
static uint64_t word[4];
template <typename E> struct X;
template <typename E, uint64_t M> struct XI { static E mk() { return (E)x; } static bool ok(E const &e) { return ((uint64_t)e & M) == (x & M); } };
template <> struct X<int> : XI<int, 0xffffffff> {};
template <> struct X<unsigned char> : XI<unsigned char, 0xff> {};
template <> struct X<char> : XI<char, 0xff> {};
template <> struct X<long> : XI<long, ~0ull> {};
template <> struct X<bool> { static bool mk() { return x & 1; } static bool ok(bool const &e) { return e == ((x & 1) != 0); } };
template <> struct X<float> { static float mk() { return 1.5f; } static bool ok(float const &e) { return e == 1.5f; } };
template <> struct X<char const *> { static char const *mk() { return reinterpret_cast<char const *>(word) + (x & 31); } static bool ok(char const *const &e) { return e == mk(); } };
template <> struct X<char *> { static char *mk() { return reinterpret_cast<char *>(word) + (x & 31); } static bool ok(char *const &e) { return e == mk(); } };
template <> struct X<void *> { static void *mk() { return reinterpret_cast<char *>(word) + (x & 31); } static bool ok(void *const &e) { return e == mk(); } };
template <> struct X<std::nullptr_t> { static std::nullptr_t mk() { return nullptr; } static bool ok(std::nullptr_t const &) { return true; } };
typedef void (*Fp)();
static void fun() {}
template <> struct X<Fp> { static Fp mk() { return &fun; } static bool ok(Fp const &f) { return f == &fun; } };
template <typename E> struct XS { static E mk() { return E("text"); } static bool ok(E const &e) { return e.what()[0] == 't' && e.what()[3] == 't'; } };
template <> struct X<std::logic_error> : XS<std::logic_error> {};
template <> struct X<std::out_of_range> : XS<std::out_of_range> {};
template <> struct X<std::length_error> : XS<std::length_error> {};
template <> struct X<std::invalid_argument> : XS<std::invalid_argument> {};
template <> struct X<std::domain_error> : XS<std::domain_error> {};
template <> struct X<std::runtime_error> : XS<std::runtime_error> {};
template <> struct X<std::range_error> : XS<std::range_error> {};
template <> struct X<std::overflow_error> : XS<std::overflow_error> {};
template <> struct X<std::underflow_error> : XS<std::underflow_error> {};
template <typename E> struct XD { static E mk() { return E(); } static bool ok(E const &e) { return typeid(e) == typeid(E); } };
template <> struct X<std::exception> : XD<std::exception> {};
template <> struct X<std::bad_alloc> : XD<std::bad_alloc> {};
template <> struct X<std::bad_cast> : XD<std::bad_cast> {};
template <> struct X<std::bad_exception> : XD<std::bad_exception> {};
template <> struct X<std::exception_ptr> { static std::exception_ptr mk() { return std::make_exception_ptr(x); } static bool ok(std::exception_ptr const &e) { try { std::rethrow_exception(e); } catch (uint64_t &y) { return y == x; } } };
struct Big1 { uint64_t a[130]; };
template <> struct X<Big1> { static Big1 mk() { Big1 b; for (unsigned i = 0; i < 130; ++i) b.a[i] = x + i; return b; } static bool ok(Big1 const &b) { bool r = true; for (unsigned i = 0; i < 130; ++i) r &= b.a[i] == x + i; return r; } };
struct VB { uint64_t v; explicit VB(uint64_t y) : v(y) {} virtual ~VB() {} };
struct V1 : virtual VB { V1() : VB(0) {} };
struct V2 : virtual VB { V2() : VB(0) {} };
struct VD : V1, V2 { Tr t; explicit VD(uint64_t y) : VB(y), t(y + 1) {} };
template <> struct X<VD> { static VD mk() { return VD(x); } static bool ok(VD const &d) { d.t.alive(); VB const &b = d; return b.v == x && d.t.v == x + 1; } };
struct Any { uint64_t v; template <typename T> operator T() const { return T(); } };
template <> struct X<Any> { static Any mk() { Any a; a.v = x; return a; } static bool ok(Any const &a) { return a.v == x; } };
struct alignas(16) Al { uint64_t v; Tr t; };
template <> struct X<Al> { static Al mk() { return Al{ x, Tr(x + 1) }; } static bool ok(Al const &a) { a.t.alive(); return ((uintptr_t)&a & 15) == 0 && a.v == x && a.t.v == x + 1; } };
template <> struct X<std::unique_ptr<Tr>> { static std::unique_ptr<Tr> mk() { return std::unique_ptr<Tr>(new Tr(x)); } static bool ok(std::unique_ptr<Tr> const &p) { return p && p->v == x; } };
template <> struct X<std::shared_ptr<Tr>> { static std::shared_ptr<Tr> mk() { return std::make_shared<Tr>(x); } static bool ok(std::shared_ptr<Tr> const &p) { return p && p->v == x; } };

// pointers are caught by value (clang finds a pointer caught by reference at a fixed distance
// from the unwinder's header, which is wrong for exceptions rethrown through std::exception_ptr)
template <typename E> struct By { typedef E &type; typedef E const &ctype; static bool same(E const &a, E const &b) { return &a == &b; } };
template <typename E> struct By<E *> { typedef E *type; typedef E *ctype; static bool same(E *a, E *b) { return a == b; } };
template <typename E> static void run() {
  unsigned expect = 0;
  {
    std::unique_ptr<Own> own;
    auto go = [&](bool last) {
      unsigned c0 = caught_;
      try {
        if (in_handler) {
          try { throw Tr(7); }
          catch (Tr &t) {
            if (!own) own.reset(new Own([](Peer &p) { for (unsigned i = 0; i < n; ++i) {
#if DIR == 0
              send(p, i, i);
#else
              p();
#endif
            } Tr guard(3); if (how == 1) { try { throw 5; } catch (int) { throw X<E>::mk(); } } if (how == 2) { try { throw X<E>::mk(); } catch (...) { throw; } } throw X<E>::mk(); }));
            else
#if DIR == 0
            (*own)();
#else
            send(*own, 0, 1);
#endif
            CHECK(t.v == 7 && std::current_exception() != nullptr, "the resumer's own exception");
          }
        } else {
          if (!own) own.reset(new Own([](Peer &p) { for (unsigned i = 0; i < n; ++i) {
#if DIR == 0
            send(p, i, i);
#else
            p();
#endif
          } Tr guard(3); if (how == 1) { try { throw 5; } catch (int) { throw X<E>::mk(); } } if (how == 2) { try { throw X<E>::mk(); } catch (...) { throw; } } throw X<E>::mk(); }));
          else
#if DIR == 0
          (*own)();
#else
          send(*own, 0, 1);
#endif
        }
      } catch (typename By<E>::type e) {
        ++caught_;
        CHECK(X<E>::ok(e), "exception contents changed");
        try { throw; } catch (typename By<E>::ctype f) { CHECK(By<E>::same(e, f), "exception was replaced"); } catch (...) { CHECK(false, "exception was replaced"); }
      } catch (...) { CHECK(false, "an exception of a foreign type arrived"); }
      CHECK(caught_ == c0 + (last ? 1 : 0), last ? "the exception did not reach the resumer" : "an exception arrived at a wrong place");
    };
    unsigned steps = n + (DIR == 0 ? 1 : 2);      // construction is the first
    for (unsigned k = 0; k < steps; ++k) go(k + 1 == steps);
    expect = 1;
    CHECK(!own || !*own, "coroutine still valid after its function ended");
  }
  CHECK(caught_ == expect, "the exception was not thrown exactly once");
  sym_cover("arrived");
}
extern "C" void harness() {
  cells();
  Balance bal;
  x = sym_u64("payload", 64);
  unsigned t = sym_pick("type", 31);
  n = sym_pick("suspensions before", N + 1);
  how = sym_pick("way", 3);
  in_handler = sym_pick("resumed in a handler", 2);
  switch (t) {
    case 0: run<int>(); break;
    case 1: run<unsigned char>(); break;
    case 2: run<char>(); break;
    case 3: run<long>(); break;
    case 4: run<bool>(); break;
    case 5: run<float>(); break;
    case 6: run<char const *>(); break;
    case 7: run<char *>(); break;
    case 8: run<void *>(); break;
    case 9: run<std::nullptr_t>(); break;
    case 10: run<Fp>(); break;
    case 11: run<std::logic_error>(); break;
    case 12: run<std::out_of_range>(); break;
    case 13: run<std::length_error>(); break;
    case 14: run<std::invalid_argument>(); break;
    case 15: run<std::domain_error>(); break;
    case 16: run<std::runtime_error>(); break;
    case 17: run<std::range_error>(); break;
    case 18: run<std::overflow_error>(); break;
    case 19: run<std::underflow_error>(); break;
    case 20: run<std::exception>(); break;
    case 21: run<std::bad_alloc>(); break;
    case 22: run<std::bad_cast>(); break;
    case 23: run<std::bad_exception>(); break;
    case 24: run<std::exception_ptr>(); break;
    case 25: run<Big1>(); break;
    case 26: run<VD>(); break;
    case 27: run<Any>(); break;
    case 28: run<Al>(); break;
    case 29: run<std::unique_ptr<Tr>>(); break;
    case 30: run<std::shared_ptr<Tr>>(); break;
  }
  bal.verify();
}
