// C13: whatever address and size the allocator returns, everything placed on
// the stack is inside it, aligned, disjoint, and disjoint from the run-time stack
#include "sendrecv.hpp"
#ifndef DIR
#define DIR 0
#endif
#ifndef CALIGN
#define CALIGN 16
#endif
#ifndef SKEW_BITS
#define SKEW_BITS 10
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
enum : std::size_t { SLACK = (1u << SKEW_BITS) };
static std::size_t BASE_SIZE = 64 * 1024;
#if P_SIZES    // from stacks that just hold the coroutine to large ones
static std::size_t const base_sizes[] = { 16 * 1024, 28 * 1024, 128 * 1024, 1024 * 1024, 8 * 1024 * 1024 };
#endif
static uintptr_t lo_, hi_;            // the region the allocator handed out
static char *block_;
static int contexts_ = 0;
static int freed_ = 0;
struct Region {
  std::size_t skew, extra;
  boost::context::stack_context allocate() {
    block_ = static_cast<char *>(std::malloc(BASE_SIZE + 2 * SLACK));
    boost::context::stack_context s;
    s.size = BASE_SIZE + extra;
    s.sp = block_ + skew + s.size;
    lo_ = reinterpret_cast<uintptr_t>(block_) + skew;
    hi_ = lo_ + s.size;
    return s;
  }
  void deallocate(boost::context::stack_context &s) noexcept {
    CHECK(reinterpret_cast<uintptr_t>(s.sp) == hi_ && s.size == hi_ - lo_, "deallocate() is given another stack");
    ++freed_;
    lo_ = hi_ = 0;
    std::free(block_);
  }
};
// called for every context created: its run-time stack is [sp-size, sp)
extern "C" void sym_hook_make_fcontext(void *sp, std::size_t size) {
  ++contexts_;
  uintptr_t top = reinterpret_cast<uintptr_t>(sp);
  CHECK(top <= hi_ && top > lo_, "the run-time stack starts outside the allocated region");
  CHECK(size <= top - lo_, "the run-time stack reaches below the allocated region");
  CHECK(size + 4096 >= top - lo_, "most of the allocated region is not handed to the coroutine");
}
static void inside(void const *q, std::size_t n, std::size_t al, const char *m) {
  uintptr_t a = reinterpret_cast<uintptr_t>(q), b = reinterpret_cast<uintptr_t>(block_);
  CHECK(a % al == 0, m);
  bool on = hi_ != 0 && a >= b && a < b + BASE_SIZE + 2 * SLACK;   // automatic objects: natively only
  CHECK(!on | ((a >= lo_) & (a + n <= hi_)), "an object was placed outside the allocated region");
}
struct alignas(CALIGN) Call {
  uint64_t tag[2];
  Call *self;
  explicit Call(uint64_t t) : tag{ t, ~t }, self(this) {}
  Call(Call const &o) : tag{ o.tag[0], o.tag[1] }, self(this) { o.ok(); ok(); }
  ~Call() { ok(); }
  void ok() const {
    CHECK(self == this && tag[0] == ~tag[1], "the stored callable is overwritten");
    inside(this, sizeof *this, CALIGN, "the stored callable is misaligned");
  }
  void operator()(Peer &p) {
    ok();
    O local = mk(77);
    inside(&local, sizeof local, alignof(O), "an automatic object is misaligned");
    for (unsigned i = 0; i < 3; ++i) {
#if DIR == 0
      send(p, i, tag[0] + i);
#else
# if !IS_VOID
#  if IS_REF
      CHECK(recv(p, 0) == tag[0] + i, "value damaged");
#  else
      { Pull::iterator it(&p); inside(it.operator->(), sizeof(O), alignof(O), "the value slot is misaligned"); CHECK(val(*it) == tag[0] + i && intact(*it), "value damaged"); }
#  endif
# endif
      p();
#endif
      ok();
      CHECK(val(local) == 77 && intact(local), "an automatic object was overwritten");
    }
  }
};
extern "C" void harness() {
  cells();
  Balance bal;
  {
    Region r;
#if P_SIZES
    BASE_SIZE = base_sizes[sym_pick("stack size", sizeof base_sizes / sizeof base_sizes[0])];
#endif
    r.skew = sym_u64("base misalignment", SKEW_BITS);
    r.extra = sym_u64("extra size", SKEW_BITS);
#ifdef ALIGNED_ONLY     // without std::align the top of the stack has to be aligned by the allocator
    sym_assume(r.skew % 16 == 0 && r.extra % 16 == 0);
#endif
    uint64_t t = sym_u64("tag", 64);
#if P_SIZES
    unsigned run = 2;
#else
    unsigned run = sym_pick("resumptions", 3) * 2;
#endif
    Call c(t);
    {
      Own o(r, c);
      unsigned k = 0;
      for (; k < run && o; ++k) {
#if DIR == 0
# if !IS_VOID
#  if IS_REF
        CHECK(recv(o, 0) == t + k, "value damaged");
#  else
        { Pull::iterator it = begin(o); inside(it.operator->(), sizeof(O), alignof(O), "the value slot is misaligned"); CHECK(val(*it) == t + k && intact(*it), "value damaged"); }
#  endif
# endif
        o();
#else
        send(o, k, t + k);
#endif
      }
      if (o) sym_cover("suspended"); else sym_cover("finished");
    }
    CHECK(contexts_ == 1 && freed_ == 1, "one context on one stack");
  }
  bal.verify();
}
