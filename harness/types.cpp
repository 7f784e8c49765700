// Values of many more types, a few transfers each: payload, identity, lifetime.
#include "h.hpp"
#include <array>
#include <functional>
#include <tuple>
#ifndef DIR
#define DIR 0
#endif
#ifdef P_REFS
#define REFS P_REFS
#else
#define REFS 0
#endif
namespace c2 = boost::coroutines2;
// ---- value types
enum class En : short {};
enum Old { old0 = 0 };
struct S3 { int a, b; uint64_t c; uint64_t f() const { return c; } uint64_t g() const { return c + 1; } virtual uint64_t h() { return c + 2; } };
struct BitF { uint64_t a : 5, b : 40, c : 19; };
union Un { uint64_t u; unsigned char b[12]; };
struct Constant { uint64_t const v; Tr const t; explicit Constant(uint64_t x) : v(x), t(x + 1) {} };       // not assignable
static uint64_t far_[8];
struct RefM { uint64_t &r; explicit RefM(uint64_t &x) : r(x) {} RefM(RefM const &o) : r(o.r) {} RefM &operator=(RefM const &) = delete; };
struct CopyOnly : Tr { explicit CopyOnly(uint64_t x) : Tr(x) {} CopyOnly(CopyOnly const &o) : Tr(static_cast<Tr const &>(o)) {} };
struct Greedy : Tr {    // constructible from anything; copies only from const
  struct Tag {};
  bool wrong = false;
  Greedy(Tag, uint64_t x) : Tr(x) {}
  Greedy(Greedy const &o) : Tr(static_cast<Tr const &>(o)), wrong(o.wrong) {}
  Greedy(Greedy &&o) : Tr(std::move(static_cast<Tr &>(o))), wrong(o.wrong) {}
  template <typename U> explicit Greedy(U &&) : Tr(0), wrong(true) {}
};
struct Explicit : Tr { explicit Explicit(uint64_t x) : Tr(x) {} explicit Explicit(Explicit const &o) : Tr(static_cast<Tr const &>(o)) {} explicit Explicit(Explicit &&o) : Tr(std::move(static_cast<Tr &>(o))) {} };
struct Lazy : Tr {      // moving may throw, copying may not
  explicit Lazy(uint64_t x) : Tr(x) {}
  Lazy(Lazy const &o) noexcept : Tr(static_cast<Tr const &>(o)) {}
  Lazy(Lazy &&o) noexcept(false) : Tr(std::move(static_cast<Tr &>(o))) {}
};
struct Multi1 { Tr a; explicit Multi1(uint64_t x) : a(x) {} virtual ~Multi1() {} };
struct Multi2 { Tr b; explicit Multi2(uint64_t x) : b(x + 1) {} virtual ~Multi2() {} };
struct Multi final : virtual Multi1, Multi2 { explicit Multi(uint64_t x) : Multi1(x), Multi2(x) {} };
struct alignas(16) A16 { uint64_t v; uint8_t c; };
struct Conv { uint64_t v; operator bool() const { return false; } operator void *() const { return nullptr; } };  // converts to false
template <typename T> struct K;
template <typename T, uint64_t M> struct KI { static T mk(uint64_t x) { return (T)x; } static uint64_t val(T const &t) { return (uint64_t)t & M; } static uint64_t code(uint64_t x) { return x & M; } };
template <> struct K<uint64_t const> : KI<uint64_t, ~0ull> {};
template <> struct K<int const> : KI<int, 0xffffffff> {};
template <> struct K<uint16_t> : KI<uint16_t, 0xffff> {};
template <> struct K<int8_t> : KI<int8_t, 0xff> {};
template <> struct K<char16_t> : KI<char16_t, 0xffff> {};
template <> struct K<En> { static En mk(uint64_t x) { return static_cast<En>((short)x); } static uint64_t val(En t) { return (uint16_t)t; } static uint64_t code(uint64_t x) { return (uint16_t)x; } };
template <> struct K<Old> { static Old mk(uint64_t x) { return static_cast<Old>(x & 1); } static uint64_t val(Old t) { return (uint64_t)t; } static uint64_t code(uint64_t x) { return x & 1; } };
template <> struct K<float> { static float mk(uint64_t x) { uint32_t y = (uint32_t)x; float f; std::memcpy(&f, &y, 4); return f; } static uint64_t val(float const &f) { uint32_t y; std::memcpy(&y, &f, 4); return y; } static uint64_t code(uint64_t x) { return (uint32_t)x; } };
typedef uint64_t (*Fp)(uint64_t);
static uint64_t f0(uint64_t x) { return x + 1; }
static uint64_t f1(uint64_t x) { return x + 2; }
template <> struct K<Fp> { static Fp mk(uint64_t x) { return x & 1 ? &f1 : &f0; } static uint64_t val(Fp f) { return f(0) - 1; } static uint64_t code(uint64_t x) { return x & 1; } };
typedef uint64_t (S3::*Mf)() const;
template <> struct K<Mf> { static Mf mk(uint64_t x) { return x & 1 ? &S3::g : &S3::f; } static uint64_t val(Mf f) { return f == &S3::g; } static uint64_t code(uint64_t x) { return x & 1; } };
typedef int S3::*Md;
template <> struct K<Md> { static Md mk(uint64_t x) { return x & 1 ? &S3::b : x & 2 ? &S3::a : nullptr; } static uint64_t val(Md f) { return f == &S3::b ? 1 : f == nullptr ? 0 : 2; } static uint64_t code(uint64_t x) { return x & 1 ? 1 : x & 2 ? 2 : 0; } };
template <> struct K<BitF> { static BitF mk(uint64_t x) { BitF b; b.a = x; b.b = x; b.c = x; return b; } static uint64_t val(BitF const &b) { return (b.b & 31) == b.a && (b.b & 0x7ffff) == b.c ? b.b : ~0ull; } static uint64_t code(uint64_t x) { return x & 0xffffffffffull; } };
template <> struct K<Un> { static Un mk(uint64_t x) { Un u; std::memset(u.b, 7, 12); u.u = x; return u; } static uint64_t val(Un const &u) { return u.b[11] == 7 ? u.u : ~u.u; } static uint64_t code(uint64_t x) { return x; } };
template <> struct K<std::array<uint8_t, 7>> {
  static std::array<uint8_t, 7> mk(uint64_t x) { std::array<uint8_t, 7> a; for (unsigned i = 0; i < 7; ++i) a[i] = (uint8_t)(x + i); return a; }
  static uint64_t val(std::array<uint8_t, 7> const &a) { for (unsigned i = 0; i < 7; ++i) if (a[i] != (uint8_t)(a[0] + i)) return 256; return a[0]; }
  static uint64_t code(uint64_t x) { return (uint8_t)x; }
};
template <> struct K<Constant> { static Constant mk(uint64_t x) { return Constant(x); } static uint64_t val(Constant const &c) { c.t.alive(); return c.t.v == c.v + 1 && !c.t.moved ? c.v : ~c.v; } static uint64_t code(uint64_t x) { return x; } };
template <> struct K<RefM> { static RefM mk(uint64_t x) { return RefM(far_[x & 7]); } static uint64_t val(RefM const &c) { return (uint64_t)(&c.r - far_); } static uint64_t code(uint64_t x) { return x & 7; } };
template <typename T> struct KT { static T mk(uint64_t x) { return T(x); } static uint64_t val(T const &t) { t.alive(); return t.moved ? ~t.v : t.v; } static uint64_t code(uint64_t x) { return x; } };
template <> struct K<Tr const> : KT<Tr> {};
template <> struct K<CopyOnly> : KT<CopyOnly> {};
template <> struct K<Lazy> : KT<Lazy> {};
template <> struct K<Greedy> { static Greedy mk(uint64_t x) { return Greedy(Greedy::Tag(), x); } static uint64_t val(Greedy const &t) { t.alive(); return t.moved || t.wrong ? ~t.v : t.v; } static uint64_t code(uint64_t x) { return x; } };
template <> struct K<Multi> { static Multi mk(uint64_t x) { return Multi(x); } static uint64_t val(Multi const &m) { m.a.alive(); m.b.alive(); return m.b.v == m.a.v + 1 && !m.a.moved && !m.b.moved ? m.a.v : ~m.a.v; } static uint64_t code(uint64_t x) { return x; } };
template <> struct K<A16> { static A16 mk(uint64_t x) { A16 a; a.v = x; a.c = (uint8_t)~x; return a; } static uint64_t val(A16 const &a) { return a.c == (uint8_t)~a.v && ((uintptr_t)&a & 15) == 0 ? a.v : ~a.v; } static uint64_t code(uint64_t x) { return x; } };
template <> struct K<Conv> { static Conv mk(uint64_t x) { Conv c; c.v = x; return c; } static uint64_t val(Conv const &c) { return c.v; } static uint64_t code(uint64_t x) { return x; } };
typedef std::tuple<uint8_t, Tr, uint16_t> Tup;
template <> struct K<Tup> { static Tup mk(uint64_t x) { return Tup((uint8_t)x, Tr(x), (uint16_t)x); } static uint64_t val(Tup const &t) { Tr const &m = std::get<1>(t); m.alive(); return !m.moved && std::get<0>(t) == (uint8_t)m.v && std::get<2>(t) == (uint16_t)m.v ? m.v : ~m.v; } static uint64_t code(uint64_t x) { return x; } };
typedef std::function<uint64_t()> Fun;
template <> struct K<Fun> { static Fun mk(uint64_t x) { Tr t(x); return Fun([t] { t.alive(); return t.v; }); } static uint64_t val(Fun const &f) { CHECK(!!f, "an emptied object arrived"); return f(); } static uint64_t code(uint64_t x) { return x; } };
template <> struct K<std::exception_ptr> {
  static std::exception_ptr mk(uint64_t x) { return std::make_exception_ptr(Tr(x)); }
  static uint64_t val(std::exception_ptr const &e) { CHECK(!!e, "an emptied object arrived"); try { std::rethrow_exception(e); } catch (Tr &t) { return t.v; } }
  static uint64_t code(uint64_t x) { return x; }
};
typedef std::pair<uint64_t *, std::unique_ptr<Tr>> Pu;   // move-only
template <> struct K<Pu> { static Pu mk(uint64_t x) { return Pu(&far_[0], std::unique_ptr<Tr>(new Tr(x))); } static uint64_t val(Pu const &p) { CHECK(!!p.second && p.first == &far_[0], "an emptied object arrived"); return p.second->v; } static uint64_t code(uint64_t x) { return x; } };

static uint64_t x0;
static unsigned n, how[N + 1], end_;
static int leave_;
struct Out {};
template <typename T, typename S> static void hand(S &s, uint64_t x, unsigned h, std::true_type) {
  typedef typename std::remove_cv<T>::type U;
  if (h == 0) s(K<T>::mk(x));
  else {
    U o(K<T>::mk(x));
    if (h == 1) { U const &c = o; s(c); CHECK(K<T>::val(o) == K<T>::code(x), "the sender's object was changed"); }
    else if (h == 2) { s(o); CHECK(K<T>::val(o) == K<T>::code(x), "the sender's object was changed"); }
    else if (h == 3) s(std::move(o));
    else { typename S::iterator it = begin(s); *it = o; CHECK(K<T>::val(o) == K<T>::code(x), "the sender's object was changed"); ++it; }
  }
}
template <typename T, typename S> static void hand(S &s, uint64_t x, unsigned h, std::false_type) {
  if (h == 0) s(K<T>::mk(x)); else { T o(K<T>::mk(x)); s(std::move(o)); }
}
#if !REFS
template <typename T, bool Copy> static void one() {
  typedef typename c2::coroutine<T>::pull_type P;
  typedef typename c2::coroutine<T>::push_type Q;
  std::integral_constant<bool, Copy> tag;
  static_assert(std::is_same<typename P::iterator::value_type, T>::value, "value_type");
# if DIR == 0
  unsigned got = 0;
  try {
  P p([tag](Q &s) { for (unsigned i = 0; i < n; ++i) hand<T>(s, x0 + i, how[i], tag); if (end_) throw Out(); });
    while (p) {
      CHECK(got < n, "too many values");
      if (leave_ == (int)got) { sym_cover("left"); return; }
      if ((got + end_) & 1) { typename P::iterator it = begin(p); CHECK(it != end(p) && K<T>::val(*it) == K<T>::code(x0 + got), "a wrong value arrived"); ++got; ++it; }
      else { CHECK(K<T>::val(p.get()) == K<T>::code(x0 + got), "a wrong value arrived"); ++got; p(); }
    }
    CHECK(got == n && !end_, "a value was lost");
  } catch (Out &) { CHECK(got == n && end_, "a value was lost"); }
# else
  unsigned got = 0;
  {
    Q q([&got](P &s) {
      for (; got < n; ) {
        CHECK(!!s, "the sender is there");
        if ((got + end_) & 1) { typename P::iterator it = begin(s); CHECK(it != end(s) && K<T>::val(*it) == K<T>::code(x0 + got), "a wrong value arrived"); ++got; if (got < n || leave_ == 0) ++it; }
        else { CHECK(K<T>::val(s.get()) == K<T>::code(x0 + got), "a wrong value arrived"); ++got; if (got < n || leave_ == 0) s(); }
      }
      if (end_) throw Out();
    });
    try {
      for (unsigned i = 0; i < n; ++i) { hand<T>(q, x0 + i, how[i], tag); CHECK(got == i + 1, "a value was lost"); }
      CHECK(!!q == (leave_ == 0) || n == 0, "validity");
      CHECK(!end_ || leave_ == 0 || n == 0, "exception lost");
    } catch (Out &) { CHECK(end_ && leave_ && got == n && !q, "a value was lost"); }
  }
# endif
  sym_cover("through");
}
#else
// ---- references
template <typename T> struct Three;      // three objects (or functions) of type T
typedef uint64_t Arr[3];
typedef uint64_t const CArr[2];
typedef uint64_t F(uint64_t);
static uint64_t f2(uint64_t x) { return x + 3; }
static Arr arr_[3];
static uint64_t const carr_[3][2] = { { 1, 2 }, { 3, 4 }, { 5, 6 } };
static uint64_t *ptr_[3];
static uint64_t volatile vol_[3];
static Fp fps_[3] = { &f0, &f1, &f2 };
struct Hidden { uint64_t x; static Hidden all[3]; private: Hidden() : x(0) {} ~Hidden() {} Hidden(Hidden const &); };
Hidden Hidden::all[3];
struct Later;                            // never completed
static unsigned char later_[24];
template <> struct Three<Arr> { static Arr &at(unsigned i) { return arr_[i]; } };
template <> struct Three<CArr> { static CArr &at(unsigned i) { return carr_[i]; } };
template <> struct Three<F> { static F &at(unsigned i) { return i == 0 ? f0 : i == 1 ? f1 : f2; } };
template <> struct Three<uint64_t *> { static uint64_t *&at(unsigned i) { return ptr_[i]; } };
template <> struct Three<uint64_t volatile> { static uint64_t volatile &at(unsigned i) { return vol_[i]; } };
template <> struct Three<Fp const> { static Fp const &at(unsigned i) { return fps_[i]; } };
template <> struct Three<Hidden> { static Hidden &at(unsigned i) { return Hidden::all[i]; } };
template <> struct Three<Later> { static Later &at(unsigned i) { return *reinterpret_cast<Later *>(later_ + 8 * i); } };
template <typename T> static bool same(T &a, T &b) { return reinterpret_cast<char const volatile *>(&a) == reinterpret_cast<char const volatile *>(&b); }
template <> bool same<F>(F &a, F &b) { return &a == &b; }
template <typename T> static void one() {
  typedef typename c2::coroutine<T &>::pull_type P;
  typedef typename c2::coroutine<T &>::push_type Q;
# if DIR == 0
  unsigned got = 0;
  try {
  P p([](Q &s) { for (unsigned i = 0; i < n; ++i) { if (how[i] >= 3) { typename Q::iterator it = begin(s); *it = Three<T>::at(how[i] % 3); } else s(Three<T>::at(how[i] % 3)); } if (end_) throw Out(); });
    while (p) {
      CHECK(got < n, "too many values");
      if (leave_ == (int)got) { sym_cover("left"); return; }
      T &r = p.get();
      typename P::iterator it = begin(p);
      CHECK(same<T>(r, Three<T>::at(how[got] % 3)) && same<T>(*it, r), "a reference to another object arrived");
      ++got;
      if ((got + end_) & 1) ++it; else p();
    }
    CHECK(got == n && !end_, "a value was lost");
  } catch (Out &) { CHECK(got == n && end_, "a value was lost"); }
# else
  unsigned got = 0;
  {
    Q q([&got](P &s) {
      for (; got < n; ) {
        CHECK(same<T>(s.get(), Three<T>::at(how[got] % 3)), "a reference to another object arrived");
        if ((got + end_) & 1) { typename P::iterator it = begin(s); CHECK(same<T>(*it, Three<T>::at(how[got] % 3)), "a reference to another object arrived"); ++got; if (got < n || leave_ == 0) ++it; }
        else { ++got; if (got < n || leave_ == 0) s(); }
      }
      if (end_) throw Out();
    });
    try {
      for (unsigned i = 0; i < n; ++i) { if (how[i] >= 3) { typename Q::iterator it = begin(q); *it = Three<T>::at(how[i] % 3); } else q(Three<T>::at(how[i] % 3)); CHECK(got == i + 1, "a value was lost"); }
      CHECK(!!q == (leave_ == 0) || n == 0, "validity");
      CHECK(!end_ || leave_ == 0 || n == 0, "exception lost");
    } catch (Out &) { CHECK(end_ && leave_ && got == n && !q, "a value was lost"); }
  }
# endif
  sym_cover("through");
}
#endif
extern "C" void harness() {
  Balance bal;
  x0 = REFS ? 0 : sym_u64("payload", 64);
#if REFS
  unsigned t = sym_pick("type", 8);
#else
  unsigned t = sym_pick("type", 27);
#endif
  n = sym_pick("count", N + 1);
  end_ = sym_pick("ends by throwing", 2);
  for (unsigned i = 0; i < n; ++i) how[i] = REFS ? sym_pick("object and way", 6) : sym_pick("sent as", 5);
#if DIR == 0
  leave_ = (int)sym_pick("left at", n + 1) - 1;
#else
  leave_ = (int)sym_pick("keeps waiting", 2) - 1;
#endif
  switch (t) {
#if REFS
#if !P_PLAIN
    case 0: one<Arr>(); break;
#endif
#if !P_PLAIN
    case 1: one<CArr>(); break;
#endif
#if !P_PLAIN
    case 2: one<F>(); break;
#endif
    case 3: one<uint64_t *>(); break;
#if !P_PLAIN
    case 4: one<uint64_t volatile>(); break;
#endif
#if !P_PLAIN
    case 5: one<Fp const>(); break;
#endif
#if !P_PLAIN
    case 6: one<Hidden>(); break;
#endif
#if !P_PLAIN
    case 7: one<Later>(); break;
#endif
#else
#if !P_PLAIN
    case 0: one<uint64_t const, true>(); break;
#endif
#if !P_PLAIN
    case 1: one<int const, true>(); break;
#endif
    case 2: one<uint16_t, true>(); break;
    case 3: one<int8_t, true>(); break;
    case 4: one<char16_t, true>(); break;
    case 5: one<En, true>(); break;
    case 6: one<Old, true>(); break;
    case 7: one<float, true>(); break;
    case 8: one<Fp, true>(); break;
    case 9: one<Mf, true>(); break;
    case 10: one<Md, true>(); break;
    case 11: one<BitF, true>(); break;
    case 12: one<Un, true>(); break;
    case 13: one<std::array<uint8_t, 7>, true>(); break;
#if !P_PLAIN
    case 14: one<Constant, true>(); break;
#endif
#if !P_PLAIN
    case 15: one<RefM, true>(); break;
#endif
#if !P_PLAIN
    case 16: one<Tr const, true>(); break;
#endif
#if !P_PLAIN
    case 17: one<CopyOnly, true>(); break;
#endif
#if !P_PLAIN
    case 18: one<Lazy, true>(); break;
#endif
#if !P_PLAIN
    case 19: one<Greedy, true>(); break;
#endif
    case 20: one<Multi, true>(); break;
    case 21: one<A16, true>(); break;
    case 22: one<Conv, true>(); break;
    case 23: one<Tup, true>(); break;
    case 24: one<Fun, true>(); break;
    case 25: one<std::exception_ptr, true>(); break;
#if !P_PLAIN
    case 26: one<Pu, false>(); break;
#endif
#endif
    default: sym_assume(false);
  }
  bal.verify();
}
