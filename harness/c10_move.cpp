// C10: moves transfer the coroutine, leave the source empty, destroy what the target held
#include "sendrecv.hpp"
#ifndef DIR
#define DIR 0
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef LEN
#define LEN 2
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
static int unwound[2];
static unsigned progress[2];
static int running = -1;
struct Mark { int id; explicit Mark(int i) : id(i) {} Mark(Mark const &) = delete; ~Mark() { ++unwound[id]; } };
static uint64_t base_[2];
struct Body {
  int id;
  void operator()(Peer &p) {
    Mark m(id);
    CHECK(running == id || progress[id] == 0, "entered by a move");
    for (unsigned i = 0; i < LEN; ++i) {
      ++progress[id];
#if DIR == 0
      send(p, (unsigned)id, base_[id] + progress[id]);
#else
# if !IS_VOID
      CHECK(recv(p, 0) == base_[id] + progress[id], "pending value lost in a move");
# endif
      p();
#endif
      CHECK(running == id, "a move or another coroutine's operation resumed this coroutine");
    }
    ++progress[id];
  }
};
static void traits() {     // documented: moving throws nothing, copying is not possible
  CHECK(std::is_nothrow_move_constructible<Own>::value && std::is_nothrow_move_assignable<Own>::value && std::is_nothrow_destructible<Own>::value,
        "moving a coroutine may throw");
  CHECK(!std::is_copy_constructible<Own>::value && !std::is_copy_assignable<Own>::value, "a coroutine can be copied");
}
extern "C" void harness() {
  traits();
  cells();
  Balance bal;
  base_[0] = sym_u64("base", 32);
  base_[1] = base_[0] + 100000;
  {
    running = 0;
    Own a = make<Own>(Body{ 0 });
    running = 1;
    Own b = make<Own>(Body{ 1 });
    running = -1;
    Own c(std::move(b));
    Own *h[3] = { &a, &b, &c };
    int holds[3] = { 0, -1, 1 };
    bool done[2] = { false, false }, gone[2] = { false, false };
    int heap_now = sym_live_stacks();
    auto verify = [&](bool last = false) {
      (void)last;
      for (int i = 0; i < 3; ++i) {
        bool want = holds[i] >= 0 && !done[holds[i]];
        CHECK(!!*h[i] == want, "validity after a move");
#if DIR == 0 && !IS_VOID
        if (want && (REREAD || last)) CHECK(recv(*h[i], 0) == base_[holds[i]] + progress[holds[i]], "pending value lost in a move");
#endif
      }
      for (int id = 0; id < 2; ++id)
        CHECK(unwound[id] == ((done[id] || (gone[id] && progress[id])) ? 1 : 0), gone[id] ? "a coroutine that was assigned over was not destroyed at once" : "a coroutine was destroyed by a move");
      CHECK(sym_live_stacks() == heap_now, "a move changed the number of live stacks");
    };
    verify();
    for (unsigned k = 0; k < OPS; ++k) {
      unsigned op = sym_pick("op", 3);
      unsigned i = sym_pick("target", 3);
      if (op == 0) {                                  // resume
        if (holds[i] < 0 || done[holds[i]]) sym_assume(false);
        int id = holds[i];
        running = id;
        unsigned p0 = progress[id];
#if DIR == 0
# if !IS_VOID
        CHECK(recv(*h[i], 0) == base_[id] + p0, "pending value lost in a move");
# endif
        (*h[i])();
#else
        send(*h[i], (unsigned)id, base_[id] + p0 + 1);
#endif
        running = -1;
        CHECK(progress[id] == p0 + 1, "the moved coroutine does not continue where it was");
        if (progress[id] == LEN + 1) { done[id] = true; sym_cover("finished"); }
        verify();
        continue;
      }
      unsigned j = sym_pick("source", 3);
      if (op == 1) {                                  // h[i] = move(h[j])
        Own &r = (*h[i] = std::move(*h[j]));
        CHECK(&r == h[i], "assignment does not return its target");
        if (i == j) sym_cover("self-move");
        else {
          if (holds[i] >= 0) { gone[holds[i]] = true; heap_now -= 1; sym_cover("assigned over"); }
          holds[i] = holds[j];
          holds[j] = -1;
        }
        verify();
      } else {                                        // through a move-constructed temporary
        if (i == j) sym_assume(false);
        {
          Own t(std::move(*h[j]));
          CHECK(!*h[j], "source of a move construction stays valid");
          CHECK(!!t == (holds[j] >= 0 && !done[holds[j]]), "move construction lost the coroutine");
          if (i == 0) *h[j] = std::move(t);
          else {   // destroyed with the temporary
            if (holds[j] >= 0) { gone[holds[j]] = true; heap_now -= 1; sym_cover("destroyed after move"); }
            holds[j] = -1;
          }
        }
        verify();
      }
    }
    verify(true);
  }
  for (int id = 0; id < 2; ++id) CHECK(unwound[id] == (progress[id] ? 1 : 0), "stack not unwound exactly once");
  bal.verify();
}
