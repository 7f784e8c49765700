// Common kit of the symbolic harnesses.  Only the public interface of
// boost.coroutine2 is used; what a harness checks is observable behaviour.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#ifdef SYMBOLIC
# include "rt.hpp"
#endif
#include <boost/coroutine2/all.hpp>
#include <boost/context/detail/exception.hpp>

// parameters arrive as P_x, so that they cannot collide with names in headers
#ifdef P_VK
# define VK P_VK
#endif
#ifdef P_DIR
# define DIR P_DIR
#endif
#ifdef P_N
# define N P_N
#endif
#ifdef P_OPS
# define OPS P_OPS
#endif
#ifdef P_DEPTH
# define DEPTH P_DEPTH
#endif
#ifdef P_SUSP
# define SUSP P_SUSP
#endif
#ifdef P_ALLOC
# define ALLOC P_ALLOC
#endif
#ifdef P_EXPL
# define EXPL P_EXPL
#endif
#ifdef P_WHICH
# define WHICH P_WHICH
#endif
#ifdef P_CALIGN
# define CALIGN P_CALIGN
#endif
#ifdef P_SKEW_BITS
# define SKEW_BITS P_SKEW_BITS
#endif
#ifdef P_NC
# define NC P_NC
#endif
#ifdef P_NPUSH
# define NPUSH P_NPUSH
#endif
#ifdef P_LEN
# define LEN P_LEN
#endif
#ifdef P_ALIGNED_ONLY
# define ALIGNED_ONLY P_ALIGNED_ONLY
#endif

extern "C" {
uint64_t sym_u64(const char *name, unsigned bits);        // arbitrary value
unsigned sym_choice(const char *name, unsigned n);        // arbitrary value < n
unsigned sym_pick(const char *name, unsigned n);          // the same, explored as n separate paths
void sym_assume(bool);
void sym_check(bool, const char *msg);                    // the property
void sym_cover(const char *label);                        // reachability witness
void sym_observe(uint64_t);                               // compared with the native run
int sym_live_heap();                                      // number of live heap/mmap blocks
int sym_live_stacks();                                    // those of at least 2 KiB
void sym_run_on(int thread, void (*f)(void *), void *arg);  // run f on a given logical thread
void (*sym_tls_dtor(int thread, void **arg))(void *);       // next destructor of a thread-local object (null natively)
void sym_end_thread(int thread);                          // the thread ends, its thread-local storage with it
void sym_point(const char *label);                        // announces the operation that follows
}
#define CHECK(c, m) sym_check((c), (m))

// where the owner of the coroutines runs
//  0 plain, 1 inside a handler, 2 in a destructor during stack unwinding,
//  3 inside a coroutine-function (of a pull coroutine), 4 of a push coroutine,
//  5 on another thread, 6 inside a coroutine-function that is being unwound
#ifdef P_CTX
extern "C" void harness_body();
struct CtxExc { int x; };
static void in_ctx();
extern "C" void harness() { in_ctx(); }
# define harness harness_body
#endif

// kinds of coroutine<> argument
#define VK_U64 0
#define VK_TR 1     // class with observable lifetime, copyable
#define VK_MO 2     // move-only
#define VK_BIG 3    // over-aligned (64), 256 bytes
#define VK_PAIR 4   // std::pair of scalar and class
#define VK_REF 5    // T &
#define VK_CREF 6   // T const &
#define VK_VOID 7
#define VK_HUGE 8   // alignas(256)
#define VK_TRIV 9   // trivially copyable struct
#define VK_PTR 10   // pointer
#define VK_U8 11
#define VK_DBL 12   // double, any bit pattern
#define VK_BOOL 13
#define VK_UPTR 14  // std::unique_ptr, move-only
#define VK_VEC 15   // std::vector
#define VK_ODD 16   // class with operator&, operator new, operator comma and a list constructor of its own
#define VK_ODDREF 17
#define VK_ABSREF 18  // reference to an abstract class
#define VK_SMALL 19   // 3-byte trivially copyable class
#define VK_STR 20     // std::string, in place or on the heap
#define VK_EMPTY 21   // class without members
#define VK_POLY 22    // polymorphic class
#define VK_INT 23     // int
#define VK_GEN 24     // a pull coroutine
#define VK_BYTES 25   // trivially copyable class of SZ bytes
#define VK_IREF 26    // uint64_t &
#define VK_SHP 27     // std::shared_ptr, shared by sender and receiver
#define VK_RE 28      // class whose copies, moves and destructors use coroutines of the same type
#ifdef P_SZ
# define SZ P_SZ
#else
# define SZ 12
#endif
#ifndef VK
#define VK VK_U64
#endif
#ifndef ALLOC
#define ALLOC 0     // 1: coroutines are built with an explicit recording stack allocator
#endif
#ifndef N
#define N 3
#endif

// ------------------------------------------------------------------ ledger
static int tr_live = 0;      // objects alive
static int tr_made = 0;
static int tr_copies = 0, tr_moves = 0;
static int tr_throw_in = 0;  // >0: the tr_throw_in-th copy/move from now throws
static int tr_thrown = 0;
struct TrThrow { int tag; };
static const uint64_t TR_ALIVE = 0x5ca1ab1e0ddba11ull;

struct Tr {  // copyable and movable; checks its own identity at every use
  uint64_t v;
  uint64_t moved;
  Tr *self;
  uint64_t magic;
  static void tick() {
    if (tr_throw_in > 0 && --tr_throw_in == 0) { ++tr_thrown; throw TrThrow{ 7 }; }
  }
  void born() { self = this; magic = TR_ALIVE; ++tr_live; ++tr_made; }
  void alive() const { CHECK(self == this && magic == TR_ALIVE, "a value object is used outside its lifetime"); }
  explicit Tr(uint64_t x) : v(x), moved(0) { born(); }
  Tr(Tr const &o) : v(0), moved(0) { o.alive(); tick(); v = o.v; moved = o.moved; born(); ++tr_copies; }
  Tr(Tr &&o) : v(0), moved(0) { o.alive(); tick(); v = o.v; moved = o.moved; o.v = ~o.v; o.moved = 1; born(); ++tr_moves; }
  Tr &operator=(Tr const &o) { alive(); o.alive(); v = o.v; moved = o.moved; return *this; }
  Tr &operator=(Tr &&o) { alive(); o.alive(); if (this != &o) { v = o.v; moved = o.moved; o.v = ~o.v; o.moved = 1; } return *this; }
  ~Tr() {
    CHECK(self == this && magic == TR_ALIVE, "a value object is destroyed twice or without having been constructed");
    self = nullptr;
    magic = 0;
    --tr_live;
  }
};
struct Mo : Tr {
  explicit Mo(uint64_t x) : Tr(x) {}
  Mo(Mo const &) = delete;
  Mo(Mo &&o) : Tr(std::move(static_cast<Tr &>(o))) {}
  Mo &operator=(Mo &&o) { Tr::operator=(std::move(static_cast<Tr &>(o))); return *this; }
};
template <std::size_t A, std::size_t W>
struct alignas(A) Fat : Tr {
  uint64_t w[W];
  explicit Fat(uint64_t x) : Tr(x) { fill(); }
  Fat(Fat const &o) : Tr(o) { cp(o); }
  Fat(Fat &&o) : Tr(std::move(static_cast<Tr &>(o))) { cp(o); }
  void fill() { for (std::size_t i = 0; i < W; ++i) w[i] = v + i; }
  void cp(Fat const &o) { for (std::size_t i = 0; i < W; ++i) w[i] = o.w[i]; }
  bool whole() const { return w[0] == v && w[W / 2] == v + W / 2 && w[W - 1] == v + (W - 1); }
};
struct Triv { uint8_t a; uint64_t b; uint32_t c; };
struct Small { uint8_t a[3]; };
struct Odd : Tr {
  explicit Odd(uint64_t x) : Tr(x) {}
  Odd(Odd const &o) : Tr(o) {}
  Odd(Odd &&o) : Tr(std::move(static_cast<Tr &>(o))) {}
  Odd(std::initializer_list<Odd>) : Tr(0xbad) { moved = 9; }
  Odd *operator&() const { return nullptr; }
  static void *nowhere() { alignas(64) static unsigned char b[64]; return b; }
  static void *operator new(std::size_t n) { return ::operator new(n); }
  static void operator delete(void *q) { ::operator delete(q); }
  static void *operator new(std::size_t, void *) { return nowhere(); }
  template <typename X> Odd &operator,(X &&) { moved = 8; return *this; }
};
struct Abs : Tr {
  explicit Abs(uint64_t x) : Tr(x) {}
  Abs(Abs &&o) : Tr(std::move(static_cast<Tr &>(o))) {}
  virtual int what() const = 0;
  virtual ~Abs() {}
};
struct Empty {
  explicit Empty(uint64_t) { ++tr_live; ++tr_made; }
  Empty(Empty const &) { Tr::tick(); ++tr_live; ++tr_made; ++tr_copies; }
  Empty(Empty &&) { Tr::tick(); ++tr_live; ++tr_made; ++tr_moves; }
  Empty &operator=(Empty const &) { return *this; }
  ~Empty() { --tr_live; CHECK(tr_live >= 0, "a value object is destroyed twice or without having been constructed"); }
};
struct PolyBase { virtual uint64_t get() const = 0; virtual ~PolyBase() {} };
struct PolySide { uint64_t side; PolySide() : side(5) {} virtual uint64_t other() const { return side; } };
struct Poly : PolySide, PolyBase, Tr {
  explicit Poly(uint64_t x) : Tr(x) {}
  Poly(Poly const &o) : PolySide(), PolyBase(), Tr(o) {}
  Poly(Poly &&o) : PolySide(), PolyBase(), Tr(std::move(static_cast<Tr &>(o))) {}
  uint64_t get() const override { alive(); return v; }
};
struct Re : Tr {
  static void use(uint64_t);
  explicit Re(uint64_t x) : Tr(x) {}
  Re(Re const &o) : Tr(static_cast<Tr const &>(o)) { use(v); }
  Re(Re &&o) : Tr(std::move(static_cast<Tr &>(o))) { use(v); }
  Re &operator=(Re &&o) { Tr::operator=(std::move(static_cast<Tr &>(o))); return *this; }
  ~Re() { use(v); }
};
inline void Re::use(uint64_t x) {
  static int depth = 0;
  if (depth) return;
  ++depth;
  int throw_in = tr_throw_in;
  tr_throw_in = 0;
  {
    typedef boost::coroutines2::coroutine<Re> C;
    unsigned n = 0;
    C::pull_type p([&](C::push_type &s) { Re r(x ^ 0x55); s(r); s(std::move(r)); });
    for (; p; p(), ++n) { Re r = p.get(); CHECK(r.v == (x ^ 0x55) && r.moved == 0, "a coroutine used by a value's special members was disturbed"); }
    CHECK(n == 2, "a coroutine used by a value's special members was disturbed");
    C::push_type q([&](C::pull_type &s) { for (;;) { CHECK(s.get().v == x + n, "a coroutine used by a value's special members was disturbed"); ++n; s(); } });
    q(Re(x + n));
    Re k(x + n);
    q(k);
    CHECK(n == 4 && k.v == x + 3, "a coroutine used by a value's special members was disturbed");
  }
  tr_throw_in = throw_in;
  --depth;
}
struct Con : Abs { explicit Con(uint64_t x) : Abs(x) {} Con(Con &&o) : Abs(std::move(o)) {} int what() const override { return 77; } };

// ------------------------------------------------------------------ value kinds
#if VK == VK_U64
typedef uint64_t V; typedef uint64_t O;
static inline O mk(uint64_t x) { return x; }
static inline uint64_t val(O const &o) { return o; }
static inline bool intact(O const &) { return true; }
#elif VK == VK_U8
typedef uint8_t V; typedef uint8_t O;
static inline O mk(uint64_t x) { return (uint8_t)x; }
static inline uint64_t val(O const &o) { return o; }
static inline bool intact(O const &) { return true; }
#elif VK == VK_TR || VK == VK_REF || VK == VK_CREF
typedef Tr O;
# if VK == VK_TR
typedef Tr V;
# elif VK == VK_REF
typedef Tr &V;
# else
typedef Tr const &V;
# endif
static inline O mk(uint64_t x) { return Tr(x); }
static inline uint64_t val(O const &o) { o.alive(); return o.v; }
static inline bool intact(O const &o) { return o.moved == 0; }
#elif VK == VK_RE
typedef Re V; typedef Re O;
static inline O mk(uint64_t x) { return Re(x); }
static inline uint64_t val(O const &o) { o.alive(); return o.v; }
static inline bool intact(O const &o) { return o.moved == 0; }
#elif VK == VK_MO
typedef Mo V; typedef Mo O;
static inline O mk(uint64_t x) { return Mo(x); }
static inline uint64_t val(O const &o) { o.alive(); return o.v; }
static inline bool intact(O const &o) { return o.moved == 0; }
#elif VK == VK_BIG || VK == VK_HUGE
# if VK == VK_BIG
typedef Fat<64, 20> V;
# elif defined P_VALIGN
typedef Fat<P_VALIGN, 7> V;
# else
typedef Fat<256, 7> V;
# endif
typedef V O;
static inline O mk(uint64_t x) { return O(x); }
static inline uint64_t val(O const &o) { o.alive(); return o.v; }
static inline bool intact(O const &o) { return o.moved == 0 && o.whole(); }
#elif VK == VK_PAIR
typedef std::pair<uint64_t, Tr> V; typedef V O;
static inline O mk(uint64_t x) { return O(x, Tr(x + 1)); }
static inline uint64_t val(O const &o) { o.second.alive(); return o.first; }
static inline bool intact(O const &o) { return o.second.moved == 0 && o.second.v == o.first + 1; }
#elif VK == VK_TRIV
typedef Triv V; typedef Triv O;
static inline O mk(uint64_t x) { Triv t; t.a = (uint8_t)x; t.b = x; t.c = (uint32_t)(x >> 32); return t; }
static inline uint64_t val(O const &o) { return o.b; }
static inline bool intact(O const &o) { return o.a == (uint8_t)o.b && o.c == (uint32_t)(o.b >> 32); }
#elif VK == VK_SMALL
typedef Small V; typedef Small O;
static inline O mk(uint64_t x) { Small t; t.a[0] = (uint8_t)x; t.a[1] = (uint8_t)(x + 1); t.a[2] = (uint8_t)(x ^ 0x55); return t; }
static inline uint64_t val(O const &o) { return o.a[0]; }
static inline bool intact(O const &o) { return o.a[1] == (uint8_t)(o.a[0] + 1) && o.a[2] == (o.a[0] ^ 0x55); }
#elif VK == VK_BYTES
template <std::size_t S> struct Unit { typedef typename std::conditional<S % 8 == 0, uint64_t, typename std::conditional<S % 4 == 0, uint32_t, typename std::conditional<S % 2 == 0, uint16_t, uint8_t>::type>::type>::type type; };
struct Bytes { Unit<SZ>::type a[SZ / sizeof(Unit<SZ>::type)]; };
static_assert(sizeof(Bytes) == SZ, "size");
typedef Bytes V; typedef Bytes O;
static inline O mk(uint64_t x) {
  O t;
  for (std::size_t i = 0; i < SZ / sizeof(t.a[0]); ++i) t.a[i] = (Unit<SZ>::type)((uint8_t)x + 3 * i + 1);
  return t;
}
static inline uint64_t val(O const &o) { return (uint8_t)(o.a[0] - 1); }
static inline bool intact(O const &o) {
  bool ok = true;
  for (std::size_t i = 1; i < SZ / sizeof(o.a[0]); ++i) ok &= (o.a[i] == (Unit<SZ>::type)((uint8_t)(o.a[0] - 1) + 3 * i + 1));
  return ok;
}
#elif VK == VK_IREF
typedef uint64_t &V; typedef uint64_t O;
static inline O mk(uint64_t x) { return x; }
static inline uint64_t val(O const &o) { return o; }
static inline bool intact(O const &) { return true; }
#elif VK == VK_SHP
typedef std::shared_ptr<Tr> V; typedef V O;
static inline O mk(uint64_t x) { return std::make_shared<Tr>(x); }
static inline uint64_t val(O const &o) { CHECK(o != nullptr, "an emptied object arrived"); o->alive(); return o->v; }
static inline bool intact(O const &o) { return o != nullptr && o.use_count() >= 1; }
#elif VK == VK_DBL
typedef double V; typedef double O;
static inline O mk(uint64_t x) { double d; std::memcpy(&d, &x, 8); return d; }
static inline uint64_t val(O const &o) { uint64_t x; std::memcpy(&x, &o, 8); return x; }
static inline bool intact(O const &) { return true; }
#elif VK == VK_BOOL
typedef bool V; typedef bool O;
static inline O mk(uint64_t x) { return (x & 1) != 0; }
static inline uint64_t val(O const &o) { return o ? 1 : 0; }
static inline bool intact(O const &) { return true; }
#elif VK == VK_UPTR
typedef std::unique_ptr<Tr> V; typedef V O;
static inline O mk(uint64_t x) { return O(new Tr(x)); }
static inline uint64_t val(O const &o) { CHECK(o != nullptr, "an emptied object arrived"); o->alive(); return o->v; }
static inline bool intact(O const &o) { return o != nullptr; }
#elif VK == VK_VEC
typedef std::vector<uint64_t> V; typedef V O;
static inline O mk(uint64_t x) { O o; o.reserve(3); o.push_back(x); o.push_back(x + 1); return o; }
static inline uint64_t val(O const &o) { CHECK(!o.empty(), "an emptied object arrived"); return o[0]; }
static inline bool intact(O const &o) { return o.size() == 2 && o[1] == o[0] + 1; }
#elif VK == VK_ODD || VK == VK_ODDREF
typedef Odd O;
# if VK == VK_ODD
typedef Odd V;
# else
typedef Odd &V;
# endif
static inline O mk(uint64_t x) { return O(x); }
static inline uint64_t val(O const &o) { o.alive(); return o.v; }
static inline bool intact(O const &o) { return o.moved == 0; }
#elif VK == VK_ABSREF
typedef Abs &V; typedef Con O;
static inline O mk(uint64_t x) { return O(x); }
static inline uint64_t val(Abs const &o) { o.alive(); return o.v; }
static inline bool intact(Abs const &o) { return o.moved == 0 && o.what() == 77; }
#elif VK == VK_PTR
typedef unsigned char *V; typedef unsigned char *O;
static inline O mk(uint64_t x) { return reinterpret_cast<O>((uintptr_t)x); }
static inline uint64_t val(O const &o) { return (uint64_t) reinterpret_cast<uintptr_t>(o); }
static inline bool intact(O const &) { return true; }
#elif VK == VK_STR
typedef std::string V; typedef std::string O;
static inline O mk(uint64_t x) { O o(x & 1 ? 40 : 11, 'a'); std::memcpy(&o[0], &x, 8); return o; }
static inline uint64_t val(O const &o) { CHECK(o.size() >= 8, "an emptied object arrived"); uint64_t x; std::memcpy(&x, o.data(), 8); return x; }
static inline bool intact(O const &o) { return (o.size() == 11 || o.size() == 40) && o[8] == 'a' && o[o.size() - 1] == 'a' && o.c_str()[o.size()] == 0 && (o.size() == 40) == (o[0] & 1); }
#elif VK == VK_EMPTY
typedef Empty V; typedef Empty O;
static inline O mk(uint64_t x) { return Empty(x); }
static inline uint64_t val(O const &) { CHECK(tr_live > 0, "value object missing"); return 0; }
static inline bool intact(O const &) { return true; }
#elif VK == VK_POLY
typedef Poly V; typedef Poly O;
static inline O mk(uint64_t x) { return Poly(x); }
static inline uint64_t val(O const &o) { PolyBase const &b = o; return b.get(); }
static inline bool intact(O const &o) { return o.moved == 0 && o.other() == 5; }
#elif VK == VK_INT
typedef int V; typedef int O;
static inline O mk(uint64_t x) { return (int)(uint32_t)x; }
static inline uint64_t val(O const &o) { return (uint32_t)o; }
static inline bool intact(O const &) { return true; }
#elif VK == VK_GEN
typedef boost::coroutines2::coroutine<uint64_t>::pull_type V; typedef V O;
static inline O mk(uint64_t x) { return O([x](boost::coroutines2::coroutine<uint64_t>::push_type &s) { Tr t(x); s(x); s(t.v + 1); CHECK(false, "a generator was resumed too often"); }); }
static inline uint64_t val(O const &o) { CHECK(!!o, "an emptied object arrived"); return const_cast<O &>(o).get(); }
static inline bool intact(O const &o) { return !!o; }
#elif VK == VK_VOID
typedef void V; typedef Tr O;
static inline O mk(uint64_t x) { return Tr(x); }
static inline uint64_t val(O const &o) { o.alive(); return o.v; }
static inline bool intact(O const &o) { return o.moved == 0; }
#endif
#if VK == VK_REF || VK == VK_CREF || VK == VK_ODDREF || VK == VK_ABSREF || VK == VK_IREF
# define IS_REF 1
#else
# define IS_REF 0
#endif
#if VK == VK_VOID
# define IS_VOID 1
#else
# define IS_VOID 0
#endif

#if VK == VK_MO || VK == VK_UPTR || VK == VK_GEN
# define COPYABLE 0
#else
# define COPYABLE 1
#endif
#define BITS (VK == VK_U8 || VK == VK_SMALL || VK == VK_BYTES ? 8 : VK == VK_BOOL || VK == VK_EMPTY ? 1 : VK == VK_INT ? 32 : 64)   // width of a payload
#define CODE(x) (VK == VK_EMPTY ? (uint64_t)0 : BITS == 32 ? (uint64_t)(uint32_t)(x) : BITS == 8 ? (uint64_t)(uint8_t)(x) : BITS == 1 ? (uint64_t)(x) & 1 : (uint64_t)(x))
typedef boost::coroutines2::coroutine<V> Co;
typedef Co::pull_type Pull;
typedef Co::push_type Push;

struct Again {  // one place whose contents are replaced
  alignas(O) unsigned char b[sizeof(O)];
  O *p;
  Again() : p(nullptr) {}
  Again(Again const &) = delete;
  O &put(uint64_t x) { clear(); p = ::new (static_cast<void *>(b)) O(mk(x)); return *p; }
  void clear() { if (p) { p->~O(); p = nullptr; } }
  ~Again() { clear(); }
};

// ------------------------------------------------------------------ recording stack allocator
#ifndef SA_MAX
#define SA_MAX 8
#endif
#ifndef SA_SIZE
#define SA_SIZE (64 * 1024)
#endif
struct SARec { boost::context::stack_context s; void *base; int id; int state; bool reused; };  // 1 allocated, 2 returned; reused: the address was handed out again
static SARec sa_rec[SA_MAX];
static int sa_n = 0, sa_allocs = 0, sa_deallocs = 0, sa_live = 0, sa_next_id = 100;
static int sa_throw_in = 0;
static int sa_objs_at_dealloc = 0;     // value objects alive when a stack was returned
static int (*sa_probe)() = nullptr;
struct SAThrow {};
struct SA {
  int id;
  std::size_t size, skew;   // skew: address bits the caller adds to the base
  SA *self;
  explicit SA(std::size_t sz = SA_SIZE, std::size_t sk = 0) : id(sa_next_id++), size(sz), skew(sk), self(this) { ++sa_live; }
  SA(SA const &o) noexcept : id(o.id), size(o.size), skew(o.skew), self(this) { CHECK(o.self == &o, "a stack allocator is used outside its lifetime"); ++sa_live; }
  ~SA() { CHECK(self == this, "a stack allocator is destroyed twice"); self = nullptr; --sa_live; }
  SA &operator=(SA const &o) noexcept { id = o.id; size = o.size; skew = o.skew; return *this; }
  boost::context::stack_context allocate() {
    CHECK(self == this, "allocate() on a dead stack allocator");
    if (sa_throw_in > 0 && --sa_throw_in == 0) throw SAThrow();
    CHECK(sa_n < SA_MAX, "harness: allocator table full");
    void *b = std::malloc(size + skew);
    boost::context::stack_context s;
    s.size = size;
    s.sp = static_cast<char *>(b) + skew + size;
    for (int i = 0; i < sa_n; ++i)
      if (sa_rec[i].s.sp == s.sp) sa_rec[i].reused = true;
    sa_rec[sa_n].reused = false;
    sa_rec[sa_n].s = s;
    sa_rec[sa_n].base = b;
    sa_rec[sa_n].id = id;
    sa_rec[sa_n].state = 1;
    ++sa_n;
    ++sa_allocs;
    return s;
  }
  void deallocate(boost::context::stack_context &s) noexcept {
    CHECK(self == this, "deallocate() on a dead stack allocator");
    if (sa_probe) sa_objs_at_dealloc = sa_probe();
    for (int i = 0; i < sa_n; ++i)
      if (sa_rec[i].s.sp == s.sp && !sa_rec[i].reused) {
        CHECK(sa_rec[i].state == 1, "the same stack is handed to deallocate() twice");
        CHECK(sa_rec[i].s.size == s.size, "deallocate() is given another size than allocate() returned");
        CHECK(sa_rec[i].id == id, "a stack is returned to a different allocator");
        sa_rec[i].state = 2;
        ++sa_deallocs;
        std::free(sa_rec[i].base);
        return;
      }
    CHECK(false, "deallocate() is given a stack that allocate() never returned");
  }
};

template <typename C, typename F>
static inline C make(F &&f) {
#if ALLOC
  return C(SA(), std::forward<F>(f));
#else
  return C(std::forward<F>(f));
#endif
}

// ------------------------------------------------------------------ leak accounting around a body
struct Balance {
  int h, t, s;
  Balance() : h(sym_live_heap()), t(tr_live), s(sa_live) {}
  void verify() const {
    CHECK(tr_live == t, "value objects leaked or destroyed too often");
    CHECK(sa_live == s, "stack allocator copies leaked or destroyed too often");
    CHECK(sym_live_heap() == h, "heap blocks leaked (a stack was not given back)");
    CHECK(sa_allocs == sa_deallocs, "allocate()/deallocate() calls do not balance");
  }
};

// current operation context used by alternation checks
static int side = 0;  // 0: the owner runs, k: coroutine k runs

template <typename F>
struct OnThread {
  static void go(void *p) { (*static_cast<F *>(p))(); }
};
template <typename F>
static inline void run_on(int t, F f) { sym_run_on(t, &OnThread<F>::go, &f); }
static inline void end_thread(int t) {
  void *x = nullptr;
  while (void (*d)(void *) = sym_tls_dtor(t, &x)) sym_run_on(t, d, x);
  sym_end_thread(t);
}

#ifdef P_CTX
# include <boost/coroutine2/fixedsize_stack.hpp>
struct CtxDtor { bool *done; ~CtxDtor() { harness_body(); *done = true; } };
static void in_ctx() {
  bool done = false;
  typedef boost::coroutines2::coroutine<void> CtxCo;
  typedef boost::coroutines2::fixedsize_stack Big;
  const std::size_t stack = 1024 * 1024;
# if P_CTX == 1
  try { throw CtxExc{ 5 }; } catch (CtxExc &e) { harness_body(); done = e.x == 5; }
# elif P_CTX == 2
  bool caught = false;
  try { CtxDtor d{ &done }; throw CtxExc{ 5 }; } catch (CtxExc &e) { caught = e.x == 5; }
  CHECK(caught, "the exception of the owner got lost");
# elif P_CTX == 3
  CtxCo::pull_type c(Big(stack), [&](CtxCo::push_type &s) { s(); harness_body(); s(); done = true; });
  c();
  CHECK(!done && c, "the outer coroutine was disturbed");
  c();
  CHECK(!c, "the outer coroutine was disturbed");
# elif P_CTX == 4
  CtxCo::push_type c(Big(stack), [&](CtxCo::pull_type &s) { s(); harness_body(); done = true; });
  c(); c();
  CHECK(!c, "the outer coroutine was disturbed");
# elif P_CTX == 5
  struct Go { static void go(void *p) { harness_body(); *static_cast<bool *>(p) = true; } };
  sym_run_on(1, &Go::go, &done);
# elif P_CTX == 6
  { CtxCo::pull_type c(Big(stack), [&](CtxCo::push_type &s) { CtxDtor d{ &done }; s(); CHECK(false, "resumed"); }); CHECK(!done, "unwound early"); }
# endif
  CHECK(done, "the owner did not get to its end");
}
#endif
