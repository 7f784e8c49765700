// C17: the shipped stack allocators and the sizes requested are honoured
#include "sendrecv.hpp"
#ifndef DIR
#define DIR 0
#endif
#ifndef WHICH
#define WHICH 0     // 0 fixedsize 1 pooled 2 protected 3 default
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
#if WHICH == 0
typedef boost::coroutines2::fixedsize_stack Stack;
#elif WHICH == 1
typedef boost::coroutines2::pooled_fixedsize_stack Stack;
#elif WHICH == 2
typedef boost::coroutines2::protected_fixedsize_stack Stack;
#else
typedef boost::coroutines2::default_stack Stack;
#endif
extern "C" std::size_t sym_block_size(void const *);   // size of the heap/mmap block containing an address
extern "C" int sym_block_kind(void const *);           // 0 malloc, 1 new, 2 new[], 3 mmap
static std::size_t run_size = 0, asked = 0;
static std::size_t block_size = 0;
static int block_kind = -1, contexts_ = 0;
extern "C" void sym_hook_make_fcontext(void *sp, std::size_t size) {
  ++contexts_;
  run_size = size;
  block_size = sym_block_size(static_cast<char *>(sp) - 1);
  block_kind = sym_block_kind(static_cast<char *>(sp) - 1);
}
static unsigned progress = 0;
static uint64_t key;
static void body(Peer &p) {
  Tr g(1);
  for (unsigned i = 0; i < N; ++i) {
    ++progress;
#if DIR == 0
    send(p, i, key + i);
#else
# if !IS_VOID
    CHECK(recv(p, 0) == key + i, "value");
# endif
    p();
#endif
  }
  ++progress;
}
// the second coroutine has the types of the first and an allocator with another size
template <typename A> static void second(A &&a) {
  progress = 0;
  Own o(std::forward<A>(a), &body);
  CHECK(progress == (DIR == 0 ? 1u : 0u), "progress");
#if DIR == 1
  send(o, 0, key);
  CHECK(progress == 1, "progress");
#endif
}
template <typename A> static void life(A &&a) {
  unsigned stop = sym_pick("resumptions", N + 2);
  progress = 0;
  Own o(std::forward<A>(a), &body);
  unsigned k = 0;
  for (; k < stop && o; ++k) {
#if DIR == 0
# if !IS_VOID
    CHECK(recv(o, 0) == key + k, "value");
# endif
    o();
#else
    send(o, k, key + k);
#endif
  }
  CHECK(progress == (DIR == 0 ? k + 1 : k), "progress");
  if (o) sym_cover("suspended"); else sym_cover("finished");
}
extern "C" void harness() {
  cells();
  Balance bal;
  key = sym_u64("key", 32);
  unsigned which = sym_pick("size class", 4);
  std::size_t base[4] = { 65536, 8192 * 9, 100000, 262144 };
#if WHICH == 1
  std::size_t off = sym_pick("size offset", 3) * 7;
#else
  std::size_t off = sym_u64("size offset", 4);
#endif
  asked = base[which] + off * 16;
  {
#if WHICH == 1
    Stack st(asked);
    int h = sym_live_stacks();
    life(st);
    CHECK(sym_live_stacks() >= h + 1, "the pool does not keep the stack that was given back");
    unsigned again = sym_pick("second coroutine", 2);
    if (again) { int h1 = sym_live_stacks(); life(st); CHECK(sym_live_stacks() == h1, "the pool does not reuse a stack that was given back"); }
    (void)h;
    CHECK(block_size >= asked, "the stack is smaller than requested");
    std::size_t other = asked + 150000;
    { Stack st2(other); second(st2); CHECK(block_size >= other && run_size + 4096 >= other, "a second stack is smaller than requested"); }
    { second(st); CHECK(run_size <= asked && run_size + 4096 >= asked, "a pool hands out the stack of another pool"); }
    CHECK(block_kind == 2 || block_kind == 0, "memory of the pool");
    CHECK(block_size >= asked, "the stack is smaller than requested");
    CHECK(run_size <= asked && run_size + 4096 >= asked, "most of the requested stack is not handed to the coroutine");
#elif WHICH == 0
    life(Stack(asked));
    CHECK(block_kind == 0 && block_size == asked, "the stack does not have the requested size");
    CHECK(run_size <= asked && run_size + 4096 >= asked, "most of the requested stack is not handed to the coroutine");
    std::size_t other = asked > 90000 ? asked - 20000 : asked + 60000;
    second(Stack(other));
    CHECK(block_kind == 0 && block_size == other, "a second stack does not have the size requested for it");
    CHECK(run_size <= other && run_size + 4096 >= other, "most of the second stack is not handed to its coroutine");
#elif WHICH == 2
    life(Stack(asked));
    CHECK(block_kind == 3 && block_size >= asked + 4096, "the stack is smaller than requested or lacks its guard page");
    CHECK(run_size <= block_size && run_size + 4096 >= asked, "most of the requested stack is not handed to the coroutine");
    std::size_t other = asked + 150000;
    second(Stack(other));
    CHECK(block_kind == 3 && block_size >= other + 4096, "a second stack is smaller than requested or lacks its guard page");
    CHECK(run_size <= block_size && run_size + 4096 >= other, "most of the second stack is not handed to its coroutine");
#else
    int stacks0 = sym_live_stacks();
    Own o(&body);                        // one-argument constructor: default stack, default size
    CHECK(sym_live_stacks() == stacks0 + 1, "one stack per coroutine");
    std::size_t def = block_size;
    int kind = block_kind;
    { Own o2(boost::coroutines2::default_stack(), &body); }
    CHECK(block_size == def && block_kind == kind, "the one-argument constructor does not use the default stack");
    CHECK(def >= boost::coroutines2::default_stack::traits_type::default_size(), "smaller than the default size");
    sym_cover("suspended"); sym_cover("finished");
    contexts_ = 1;
#endif
    CHECK(contexts_ >= 1, "no context was created");
  }
  bal.verify();
}
