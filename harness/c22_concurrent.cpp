// C22: threads that use different coroutines share nothing.  Two threads run
// unsynchronised between sym_race(1) and sym_race(0); the engine tracks
// happens-before and reports conflicting accesses whatever their order in time.
#include "h.hpp"
#include <atomic>
#include <memory>
extern "C" void sym_race(int);
#ifndef DIR
#define DIR 0
#endif
#ifndef OPS
#define OPS 4
#endif
#if DIR == 0
typedef Pull Own; typedef Push Peer;
#else
typedef Push Own; typedef Pull Peer;
#endif
struct Boom { uint64_t x; };
// everything a thread works with; main looks at it only before and after
struct Mine {
  Own *o;
  std::atomic<Mine *> *box;
  uint64_t x;          // first payload
  unsigned sent, got;  // transfers
  unsigned n, how;     // suspensions; 0 returns, 1 throws
  unsigned ended, guards, nest;
  unsigned char pad[128];
};
static void middle();
struct Guard { unsigned *n; ~Guard() { middle(); ++*n; } };
#if !IS_VOID
template <typename S> static void give(S &s, Mine &m) {
  O o = mk(m.x + m.sent);
  unsigned k = m.sent++;
  (void)k;
# if IS_REF
  s(o);
# elif COPYABLE
  if (k & 1) { O const &c = o; s(c); CHECK(val(o) == CODE(m.x + k) && intact(o), "the sender's object was changed"); }
  else s(std::move(o));
# else
  s(std::move(o));
# endif
}
template <typename S> static void take(S &s, Mine &m) {
# if IS_REF || COPYABLE
  auto const &o = s.get();
# else
  O o = s.get();
# endif
  CHECK(val(o) == CODE(m.x + m.got) && intact(o), "a wrong value arrived");
  ++m.got;
}
#else
template <typename S> static void give(S &s, Mine &m) { ++m.sent; s(); }
template <typename S> static void take(S &, Mine &m) { ++m.got; }
#endif
#if P_OVERLAP        // here the other thread may get its turn
extern "C" int sym_step(int, void (*)(void *), void *);
extern "C" void sym_yield();
static void middle() { sym_yield(); }
#else
static void middle() {}
#endif
struct Body {          // callable with a state of its own
  Mine *m;
#if P_PLAIN
  std::shared_ptr<uint64_t> own;
#else
  std::unique_ptr<uint64_t> own;
#endif
  void operator()(Peer &p) {
    Guard g{ &m->guards };
    CHECK(*own == m->x, "the callable's state was changed");
    middle();
    for (unsigned i = 0; i < m->n; ++i) {
      if (m->nest && i == 0) {
        Mine in{ nullptr, nullptr, m->x + 100, 0, 0, 1, 0, 0, 0, 0, { 0 } };
        Pull q([&in](Push &s) { give(s, in); middle(); in.ended = 1; });
        take(q, in);
        middle();
        q();
        CHECK(!q && in.ended == 1, "an inner coroutine was disturbed");
      }
#if DIR == 0
      give(p, *m);
#else
      take(p, *m);
      middle();
      p();
#endif
      middle();
    }
    ++m->ended;
    if (m->how) throw Boom{ m->x };
  }
};
static void build(Mine &m) {
  m.sent = m.got = m.ended = m.guards = 0;
  try {
    m.o = new Own(Body{ &m, decltype(Body::own)(new uint64_t(m.x)) });
  } catch (Boom &b) { m.o = nullptr; CHECK(DIR == 0 && m.n == 0 && m.how == 1 && b.x == m.x, "exception"); }
}
static void resume(Mine &m) {
  if (!*m.o) { CHECK(m.ended == 1 || m.guards == 1, "validity"); return; }
  CHECK(m.ended == 0, "validity");
  try {
#if DIR == 0
    take(*m.o, m);
    (*m.o)();
#else
    give(*m.o, m);
#endif
    CHECK(m.how == 0 || m.ended == 0, "an exception was lost");
  } catch (Boom &b) { CHECK(m.how == 1 && m.ended == 1 && b.x == m.x && !*m.o, "exception"); }
}
static void drop(Mine &m) {
  bool entered = DIR == 0 || m.sent > 0;
  delete m.o;
  m.o = nullptr;
  CHECK(m.guards == (entered ? 1u : 0u), "the coroutine was not unwound exactly once");
}
static void moved(Mine &m) { Own *q = new Own(std::move(*m.o)); delete m.o; m.o = q; }
static void step(Mine *&mine, std::atomic<Mine *> &box, unsigned op) {
  Mine &m = *mine;
  if (!m.o) { build(m); return; }
  if (op == 0) resume(m);
  else if (op == 1) drop(m);
  else if (op == 2) moved(m);
  else {                      // exchange with what the other thread left in the box
    Mine *other = box.exchange(mine, std::memory_order_acq_rel);
    mine = other;
  }
}
extern "C" void harness() {
  Balance bal;
  Mine *all = new Mine[3]();
  for (unsigned t = 0; t < 3; ++t) {
    all[t].x = sym_u64("payload", BITS);
    // (suspensions, ends by throwing)
    static unsigned const plan[4][2] = { { 2, 0 }, { 1, 1 }, { 0, 1 }, { 0, 0 } };
    unsigned k = t == 0 ? sym_pick("plan", 4) : t == 1 ? sym_pick("plan", 2) : 0;
    all[t].n = plan[k][0];
    all[t].how = plan[k][1];
    all[t].nest = k == 0 && t < 2;
  }
  struct Slot { Mine *mine; unsigned char pad[120]; };
  Slot *slot = new Slot[2]();
  std::atomic<Mine *> *box = new std::atomic<Mine *>(&all[2]);
  slot[0].mine = &all[0];
  slot[1].mine = &all[1];
  bool both[2] = { false, false };
  run_on(1, [] {});
  run_on(2, [] {});
#if P_OVERLAP
  struct Task { Slot *s; std::atomic<Mine *> *box; unsigned op; unsigned char pad[104]; static void go(void *p) { Task &t = *static_cast<Task *>(p); step(t.s->mine, *t.box, t.op); } };
  Task *task = new Task[2]();
  bool busy[2] = { false, false };
  for (unsigned t = 0; t < 2; ++t) { task[t].s = &slot[t]; task[t].box = box; }
  sym_race(1);
  for (unsigned k = 0; k < OPS; ++k) {
    unsigned t = k == 0 ? 0 : sym_pick("thread", 2);
    if (!busy[t]) task[t].op = slot[t].mine->o ? sym_pick("operation", 3) : 0;
    both[t] = true;
    if (busy[1 - t]) sym_cover("overlap");
    busy[t] = !sym_step((int)t + 1, &Task::go, &task[t]);
  }
  for (unsigned t = 0; t < 2; ++t) while (busy[t]) busy[t] = !sym_step((int)t + 1, &Task::go, &task[t]);
  sym_race(0);
  delete[] task;
#else
  sym_race(1);
  for (unsigned k = 0; k < OPS; ++k) {
    unsigned t = k == 0 ? 0 : k + 1 == OPS && !both[1] ? 1 : sym_pick("thread", 2);
    Slot *s = &slot[t];
    unsigned op = s->mine->o ? sym_pick("operation", 4) : 0;
    both[t] = true;
    run_on((int)t + 1, [s, box, op] { step(s->mine, *box, op); });
  }
  sym_race(0);
#endif
  if (both[0] && both[1]) sym_cover("both threads");
  for (unsigned t = 0; t < 3; ++t) if (all[t].o) { if (all[t].got) sym_cover("resumed"); drop(all[t]); }
  delete box;
  delete[] slot;
  delete[] all;
  bal.verify();
}
