// Kind-independent sending and receiving, used by harnesses that also run for
// reference and void coroutines.  `slot` objects live as long as the harness.
#pragma once
#include "h.hpp"
static inline O &cell(unsigned i) {  // storage for objects sent by reference
  static O *cells[8];
  i &= 7;
  if (!cells[i]) {
    alignas(O) static unsigned char buf[8][sizeof(O)];
    cells[i] = ::new (static_cast<void *>(buf[i])) O(mk(1000 + i));
  }
  return *cells[i];
}
// objects sent by reference live throughout
static inline void cells() {
#if IS_REF
  for (unsigned i = 0; i < 8; ++i) (void)cell(i);
#endif
}
// send payload x (number k); returns the reference operator() returned
#if IS_VOID
template <typename S> static inline S &send(S &s, unsigned, uint64_t) { return s(); }
template <typename S> static inline uint64_t recv(S &, uint64_t expect) { return expect; }
#elif IS_REF
static inline void put(O &o, uint64_t x) { o.v = x; }
template <typename S> static inline S &send(S &s, unsigned k, uint64_t x) { O &o = cell(k); put(o, x); return s(o); }
template <typename S> static inline uint64_t recv(S &s, uint64_t) { return val(s.get()); }
#else
template <typename S> static inline S &send(S &s, unsigned, uint64_t x) { return s(mk(x)); }
template <typename S> static inline uint64_t recv(S &s, uint64_t) { O x = s.get(); CHECK(intact(x), "received object is damaged"); return val(x); }
#endif

// get() on a copyable class is only looked at once between two resumptions here
// (looking twice is the subject of C18); scalars, pointers and references always
#define REREAD (VK == VK_U64 || VK == VK_U8 || VK == VK_TRIV || VK == VK_PTR || VK == VK_DBL || VK == VK_BOOL || VK == VK_SMALL || VK == VK_BYTES || VK == VK_INT || VK == VK_EMPTY || IS_REF)
