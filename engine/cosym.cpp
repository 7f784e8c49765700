#include "cosym.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>

#include <unistd.h>

#include "llvm/ADT/SmallString.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
using namespace llvm;

// ------------------------------------------------------------------ globals
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static z3::context Z;
static std::unique_ptr<z3::solver> Sol;
static std::vector<Z3_ast> solStack;
static std::vector<std::unique_ptr<State>> work;
static u64 nQueries = 0, nSat = 0, nUnsat = 0, nForks = 0, nInsts = 0, nPaths = 0, nChecks = 0,
           nSymChecks = 0, nSwitches = 0, nAssumeKilled = 0, nCheckQueries = 0, nStates = 0, nFoldedCmp = 0;
static double solverTime = 0, timeLimit = 600;
static u64 stepLimit = 20000000, maxPaths = ~0ull, seedSamples = 16;
static std::string repoPrefix = "/repo/";
static std::string dumpDir;
static u64 dumpEvery = 7;
static std::vector<Violation> viols;
static std::map<std::string, int> violCount;
static std::map<std::string, u64> covers;
static std::string incomplete;
static std::vector<u64> fixedTape;
static bool useTape = false;
struct PathSample { std::vector<std::pair<std::string, u64>> in; std::vector<u64> obs; std::vector<std::string> cov; };
static std::vector<PathSample> samples;
static std::chrono::steady_clock::time_point t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

struct Unsupported { std::string why; };
struct KillPath {};
struct Reexec {};
[[noreturn]] static void unsup(const std::string &w) { throw Unsupported{w}; }

// ------------------------------------------------------------------ z3 helpers
static Z3_ast keep(Z3_ast a) {
  Z3_inc_ref(Z, a);
  if (Z3_get_error_code(Z) != Z3_OK) unsup(std::string("z3: ") + Z3_get_error_msg(Z, Z3_get_error_code(Z)));
  return a;
}
static Z3_ast simp(Z3_ast a) {
  Z3_inc_ref(Z, a);
  Z3_ast r = Z3_simplify(Z, a);
  Z3_inc_ref(Z, r);
  Z3_dec_ref(Z, a);
  return r;
}
static Z3_ast bvconst(u64 c, u32 w) {
  if (w <= 64) return keep(Z3_mk_unsigned_int64(Z, c, Z3_mk_bv_sort(Z, w)));
  return keep(Z3_mk_unsigned_int64(Z, c, Z3_mk_bv_sort(Z, w)));
}
static Z3_ast toE(const SV &v) { return v.e ? v.e : bvconst(v.c, v.w); }
static SV mkSV(Z3_ast a, u32 w) {
  Z3_ast r = simp(a);
  SV v;
  v.w = w;
  uint64_t c;
  if (w <= 64 && Z3_get_ast_kind(Z, r) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, r, &c)) {
    v.c = c;
    return v;
  }
  v.e = r;
  return v;
}
static Z3_ast boolOf(const SV &v) {  // i1 -> Bool
  return keep(Z3_mk_eq(Z, toE(v), bvconst(1, 1)));
}
static SV svOfBool(Z3_ast b) {
  return mkSV(Z3_mk_ite(Z, b, bvconst(1, 1), bvconst(0, 1)), 1);
}
static Z3_ast mkNot(Z3_ast a) { return simp(Z3_mk_not(Z, a)); }

static void syncSolver(const std::vector<Z3_ast> &pc) {
  size_t k = 0;
  while (k < pc.size() && k < solStack.size() && pc[k] == solStack[k]) k++;
  if (solStack.size() > k) {
    Sol->pop(solStack.size() - k);
    solStack.resize(k);
  }
  while (k < pc.size()) {
    Sol->push();
    Sol->add(z3::expr(Z, pc[k]));
    solStack.push_back(pc[k]);
    k++;
  }
}
static u64 dumpCtr = 0;
static bool query(State &S, Z3_ast extra, std::shared_ptr<z3::model> *mout) {
  syncSolver(S.pc);
  auto a = std::chrono::steady_clock::now();
  Sol->push();
  if (extra) Sol->add(z3::expr(Z, extra));
  z3::check_result r = Sol->check();
  if (!dumpDir.empty() && (dumpCtr++ % dumpEvery) == 0 && dumpCtr < 400 * dumpEvery) {
    std::ofstream f(dumpDir + "/q" + std::to_string(dumpCtr) + ".smt2");
    f << "; z3 says " << (r == z3::sat ? "sat" : r == z3::unsat ? "unsat" : "unknown") << "\n(set-logic QF_BV)\n" << Sol->to_smt2();
  }
  if (r == z3::sat && mout) *mout = std::make_shared<z3::model>(Sol->get_model());
  Sol->pop();
  solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
  nQueries++;
  if (r == z3::sat) nSat++;
  else if (r == z3::unsat) nUnsat++;
  else unsup("solver returned unknown");
  return r == z3::sat;
}
static bool modelTrue(const z3::model &m, Z3_ast b) {
  Z3_ast r = nullptr;
  if (!Z3_model_eval(Z, m, b, true, &r) || !r) return false;
  z3::expr e(Z, r);
  return e.is_true();
}
static u64 modelVal(const z3::model &m, Z3_ast a) {
  Z3_ast r = nullptr;
  if (!Z3_model_eval(Z, m, a, true, &r) || !r) return 0;
  z3::expr e(Z, r);
  uint64_t c = 0;
  if (Z3_get_numeral_uint64(Z, e, &c)) return c;
  return 0;
}
static void needModel(State &S) {
  if (S.model) return;
  std::shared_ptr<z3::model> m;
  if (!query(S, nullptr, &m)) throw KillPath();
  S.model = m;
}
static bool feasible(State &S, Z3_ast cond, std::shared_ptr<z3::model> *mout) {
  Z3_lbool bl = Z3_get_bool_value(Z, cond);
  if (bl == Z3_L_TRUE) { needModel(S); if (mout) *mout = S.model; return true; }
  if (bl == Z3_L_FALSE) return false;
  needModel(S);
  if (modelTrue(*S.model, cond)) { *mout = S.model; return true; }
  return query(S, cond, mout);
}
static void addPC(State &S, Z3_ast cond, std::shared_ptr<z3::model> m) {
  if (Z3_get_bool_value(Z, cond) == Z3_L_TRUE) return;
  S.pc.push_back(cond);
  S.model = m;
}
static State *fork(State &S) {
  nForks++;
  work.emplace_back(new State(S));
  return work.back().get();
}

// ------------------------------------------------------------------ reporting
static std::string demangled(const Function *F) {
  std::string d = demangle(F->getName().str());
  if (d.size() > 220) d = d.substr(0, 220) + "...";
  return d;
}
static std::string fileOf(const DILocation *L) {
  std::string f = L->getFilename().str(), d = L->getDirectory().str();
  if (!f.empty() && f[0] != '/') f = d + "/" + f;
  return f;
}
static std::string locOf(const Instruction *I) {
  const DebugLoc &L = I->getDebugLoc();
  if (!L) return "";
  return fileOf(L.get()) + ":" + std::to_string(L.getLine());
}
static std::vector<std::string> backtrace(State &S) {
  std::vector<std::string> bt;
  auto &fr = S.ctxs[S.cur].frames;
  for (int i = (int)fr.size() - 1; i >= 0 && bt.size() < 24; i--) {
    Frame &f = fr[i];
    std::string l = demangled(f.f->F);
    if (f.bb < (int)f.f->blocks.size() && f.ip < (int)f.f->blocks[f.bb].insts.size())
      l += " @ " + locOf(f.f->blocks[f.bb].insts[f.ip].I);
    bt.push_back(l);
  }
  return bt;
}
static void evalInputs(State &S, const z3::model *m, std::vector<std::pair<std::string, u64>> &out) {
  for (auto &i : S.inputs) out.push_back({i.name, i.isConc ? i.conc : modelVal(*m, i.e)});
}
[[noreturn]] static void violate(State &S, const std::string &kind, const std::string &msg,
                                 std::shared_ptr<z3::model> m = nullptr);
static void report(State &S, const std::string &kind, const std::string &msg, std::shared_ptr<z3::model> m) {
  if (!m) { needModel(S); m = S.model; }
  Violation v;
  v.kind = kind;
  v.msg = msg;
  v.bt = backtrace(S);
  v.where = v.bt.empty() ? "" : v.bt[0];
  evalInputs(S, m.get(), v.inputs);
  std::string key = kind + "|" + msg;
  if (kind != "check") key += "|" + v.where;
  int &n = violCount[key];
  if (n++ < 3) viols.push_back(v);
}
static void violate(State &S, const std::string &kind, const std::string &msg, std::shared_ptr<z3::model> m) {
  report(S, kind, msg, m);
  throw KillPath();
}

// ------------------------------------------------------------------ memory
static std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
static u64 alignUp(u64 v, u64 a) { return (v + a - 1) / a * a; }
static std::shared_ptr<MemObj> mkObj(u64 base, u64 size, ObjKind k) {
  auto o = std::make_shared<MemObj>();
  o->base = base;
  o->size = size;
  o->kind = k;
  o->pages.reset((size + PG - 1) / PG);
  return o;
}
static u64 heapAlloc(State &S, u64 size, u8 how, u64 align = 16) {
  // adversarial placement: aligned as promised and to nothing more
  u64 b = alignUp(S.nextHeap, 4096);
  if (how == 3) ; else if (align <= 16) b += 16; else b = alignUp(b, 2 * align) + align;
  S.nextHeap = b + size + 256;
  auto o = mkObj(b, size, how == 3 ? O_MMAP : O_HEAP);
  o->allocKind = how;
  if (how == 3) o->zeroDefault = true;
  S.mem[b] = o;
  S.heapLive++;
  if (size >= 2048) S.heapBig++;
  S.heapMade++;
  return b;
}
static MemObj *findObj(State &S, u64 a) {
  auto it = S.mem.upper_bound(a);
  if (it == S.mem.begin()) return nullptr;
  --it;
  MemObj *o = it->second.get();
  if (a < o->base + o->size || (o->size == 0 && a == o->base)) return o;
  return nullptr;
}
static MemObj *wr(State &S, u64 base) {
  auto &p = S.mem[base];
  if (p.use_count() > 1) p = std::make_shared<MemObj>(*p);
  return p.get();
}
static Page *wrPage(MemObj *o, size_t pg) {
  auto &p = o->pages.mut(pg);
  if (!p) {
    p = std::make_shared<Page>();
    if (o->zeroDefault) memset(p->tag, T_CONC, PG);
  } else if (p.use_count() > 1)
    p = std::make_shared<Page>(*p);
  return p.get();
}
static SV bin(unsigned op, const SV &a, const SV &b);
static SV cmp(CmpInst::Predicate p, const SV &a, const SV &b);

static void killCtx(State &S, int c);
static MemObj *access(State &S, u64 a, u64 n, bool write, const char *what) {
  MemObj *o = findObj(S, a);
  if (!o) {
    if (a < 65536) violate(S, "memory", std::string("null pointer dereference (") + what + ")");
    if (getenv("COSYM_DEBUG")) fprintf(stderr, "access %llx %s\n", (unsigned long long)a, what);
    violate(S, "memory", std::string("out-of-bounds or wild access (") + what + ")");
  }
  if (!o->alive) {
    const char *k = o->kind == O_STACK ? "automatic object after its lifetime"
                    : o->kind == O_EXC ? "destroyed exception object" : "freed memory";
    violate(S, "memory", std::string("use of ") + k + " (" + what + ")");
  }
  if (a + n > o->base + o->size) violate(S, "memory", std::string("out-of-bounds access past the end of an object (") + what + ")");
  if (write && o->kind == O_CONST) violate(S, "memory", "write to constant memory");
  if (o->noaccessHi > o->noaccessLo) {
    u64 off = a - o->base;
    if (off < o->noaccessHi && off + n > o->noaccessLo) violate(S, "memory", "access to a guard page");
  }
  for (auto &r : o->regions) {
    if (S.ctxs[r.ctx].st == C_DEAD) continue;
    SV lo = r.lo, hi = r.hi;
    SV ina = cmp(CmpInst::ICMP_ULT, SV(a, 64), hi);
    SV inb = cmp(CmpInst::ICMP_UGT, SV(a + n, 64), lo);
    SV both = bin(Instruction::And, ina, inb);
    if (S.ctxs[r.ctx].st == C_SUSP && S.ctxs[r.ctx].ontop) {
      // a context that left through ontop_fcontext has usually finished: its stack may be
      // given back and reused, but then it must not be resumed any more
      std::shared_ptr<z3::model> m;
      if (write && (both.sym() ? feasible(S, boolOf(both), &m) : both.c != 0)) killCtx(S, r.ctx);
      continue;
    }
    if (!both.sym()) {
      if (both.c) violate(S, "memory", std::string("library data overlaps the run-time stack of a coroutine (") + what + ")");
    } else {
      std::shared_ptr<z3::model> m;
      if (feasible(S, boolOf(both), &m))
        violate(S, "memory", std::string("library data overlaps the run-time stack of a coroutine (") + what + ")", m);
      // infeasible: implied by the path condition, nothing to add
    }
  }
  return o;
}
static Race *raceMut(State &S) {
  if (S.race.use_count() > 1) S.race = std::make_shared<Race>(*S.race);
  return S.race.get();
}
static inline bool racing(State &S) { return S.race && S.thread > 0 && S.thread < 4; }
static u64 raceAccesses = 0;
static void raceAccess(State &S, u64 a, u64 n, bool write) {
  if (!racing(S) || !n) return;
  MemObj *o = findObj(S, a);
  if (!o || o->kind == O_STACK || o->kind == O_CONST || o->kind == O_EXC || o->kind == O_EXTERN) return;
  Race *r = raceMut(S);
  int t = S.thread;
  raceAccesses++;
  for (u64 k = a; k < a + n; k++) {
    RaceCell &c = r->cells[k];
    for (int u = 1; u < 4; u++)
      if (u != t && (c.w[u] > r->vc[t][u] || (write && c.r[u] > r->vc[t][u])))
        violate(S, "race", "two threads access the same data without synchronisation");
    (write ? c.w : c.r)[t] = r->vc[t][t];
  }
}
static void raceFree(State &S, MemObj *o) {
  if (!racing(S)) return;
  Race *r = S.race.get();
  int t = S.thread;
  for (auto i = r->cells.lower_bound(o->base); i != r->cells.end() && i->first < o->base + o->size; ++i)
    for (int u = 1; u < 4; u++)
      if (u != t && (i->second.w[u] > r->vc[t][u] || i->second.r[u] > r->vc[t][u]))
        violate(S, "race", "a thread releases data that another one uses without synchronisation");
}
static void raceSync(State &S, u64 a, bool acq, bool rel) {
  if (!racing(S)) return;
  Race *r = raceMut(S);
  auto &l = r->sync.insert({ a, std::array<u32, 4>{ { 0, 0, 0, 0 } } }).first->second;
  auto *v = r->vc[S.thread];
  if (acq) for (int u = 0; u < 4; u++) v[u] = std::max(v[u], l[u]);
  if (rel) { for (int u = 0; u < 4; u++) l[u] = std::max(l[u], v[u]); v[S.thread]++; }
}
static void raceAtomic(State &S, u64 a, AtomicOrdering o) { raceSync(S, a, isAcquireOrStronger(o), isReleaseOrStronger(o)); }
static u64 undefCtr = 0;
static SV readByte(State &S, MemObj *&o, u64 a) {
  u64 off = a - o->base;
  Page *p = o->pages.get(off / PG);
  u32 i = off % PG;
  u8 t = p ? p->tag[i] : (o->zeroDefault ? (u8)T_CONC : (u8)T_UNDEF);
  if (t == T_CONC) return SV(p ? p->data[i] : 0, 8);
  if (t == T_SYM) { SV v; v.w = 8; v.e = p->sym[i]; return v; }
  // uninitialised: an arbitrary but fixed byte
  o = wr(S, o->base);
  Page *q = wrPage(o, off / PG);
  SV v;
  v.w = 8;
  std::string nm = "undef!" + std::to_string(undefCtr++);
  v.e = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), Z3_mk_bv_sort(Z, 8)));
  if (!q->sym) q->sym.reset(new Z3_ast[PG]());
  q->tag[i] = T_SYM;
  q->sym[i] = v.e;
  return v;
}
static void writeByte(MemObj *o, u64 a, const SV &v) {
  u64 off = a - o->base;
  Page *p = wrPage(o, off / PG);
  u32 i = off % PG;
  if (v.sym()) {
    if (!p->sym) p->sym.reset(new Z3_ast[PG]());
    p->sym[i] = v.e;
    p->tag[i] = T_SYM;
  } else {
    p->data[i] = (u8)v.c;
    p->tag[i] = T_CONC;
  }
}
// bytes of a stored term, so that loading all of them again yields that term
static std::unordered_map<Z3_ast, std::vector<SV>> termBytes;
static std::unordered_map<Z3_ast, Z3_ast> lowByteOf;   // low byte -> term stored last
static SV loadInt(State &S, u64 a, u32 bits, const char *what) {
  u32 n = (bits + 7) / 8;
  MemObj *o = access(S, a, n, false, what);
  u64 off = a - o->base;
  if (bits <= 64 && off / PG == (off + n - 1) / PG) {  // fast path
    Page *p = o->pages.get(off / PG);
    u32 i = off % PG;
    bool all = true;
    if (!p) all = o->zeroDefault;
    else for (u32 k = 0; k < n; k++) if (p->tag[i + k] != T_CONC) { all = false; break; }
    if (all) {
      u64 v = 0;
      if (p) memcpy(&v, p->data + i, n);
      return SV(v, bits);
    }
  }
  std::vector<SV> b;
  bool sym = false;
  for (u32 k = 0; k < n; k++) {
    b.push_back(readByte(S, o, a + k));
    sym |= b.back().sym();
  }
  if (!sym && bits <= 64) {
    u64 v = 0;
    for (u32 k = 0; k < n; k++) v |= b[k].c << (8 * k);
    return SV(v, bits);
  }
  if (b[0].sym() && bits == n * 8) {
    auto it = lowByteOf.find(b[0].e);
    if (it != lowByteOf.end()) {
      auto &tb = termBytes.at(it->second);
      bool same = tb.size() == n;
      for (u32 k = 0; same && k < n; k++) same = b[k].e == tb[k].e && (b[k].sym() || b[k].c == tb[k].c);
      if (same) { SV r; r.w = bits; r.e = it->second; return r; }
    }
  }
  Z3_ast e = toE(b[n - 1]);
  for (int k = (int)n - 2; k >= 0; k--) e = keep(Z3_mk_concat(Z, e, toE(b[k])));
  if (bits != n * 8) e = keep(Z3_mk_extract(Z, bits - 1, 0, e));
  return mkSV(e, bits);
}
static void storeInt(State &S, u64 a, const SV &v0, const char *what) {
  u32 n = (v0.w + 7) / 8;
  access(S, a, n, true, what);
  MemObj *o = wr(S, findObj(S, a)->base);
  SV v = v0;
  if (v.w != n * 8) {
    if (v.sym()) v = mkSV(Z3_mk_zero_ext(Z, n * 8 - v.w, v.e), n * 8);
    else v.w = n * 8;
  }
  if (!v.sym()) {
    for (u32 k = 0; k < n; k++) writeByte(o, a + k, SV(k < 8 ? v.c >> (8 * k) : 0, 8));
    return;
  }
  std::vector<SV> &tb = termBytes[v.e];
  if (tb.empty()) {
    keep(v.e);
    for (u32 k = 0; k < n; k++) tb.push_back(mkSV(Z3_mk_extract(Z, 8 * k + 7, 8 * k, v.e), 8));
  }
  if (tb[0].sym()) lowByteOf[tb[0].e] = v.e;
  for (u32 k = 0; k < n; k++) writeByte(o, a + k, tb[k]);
}
// raw copy keeping undef bytes undef
static void copyMem(State &S, u64 d, u64 s, u64 n) {
  if (!n) return;
  access(S, s, n, false, "memcpy source");
  access(S, d, n, true, "memcpy destination");
  raceAccess(S, s, n, false);
  raceAccess(S, d, n, true);
  std::vector<u8> tag(n), dat(n);
  std::vector<Z3_ast> sy(n);
  {
    MemObj *o = findObj(S, s);
    for (u64 k = 0; k < n; k++) {
      u64 off = s + k - o->base;
      Page *p = o->pages.get(off / PG);
      u32 i = off % PG;
      tag[k] = p ? p->tag[i] : (o->zeroDefault ? (u8)T_CONC : (u8)T_UNDEF);
      dat[k] = p ? p->data[i] : 0;
      sy[k] = tag[k] == T_SYM ? p->sym[i] : nullptr;
    }
  }
  MemObj *o = wr(S, findObj(S, d)->base);
  for (u64 k = 0; k < n; k++) {
    u64 off = d + k - o->base;
    Page *p = wrPage(o, off / PG);
    u32 i = off % PG;
    p->tag[i] = tag[k];
    p->data[i] = dat[k];
    if (tag[k] == T_SYM) {
      if (!p->sym) p->sym.reset(new Z3_ast[PG]());
      p->sym[i] = sy[k];
    }
  }
}

// resolve a symbolic word to concrete values by forking over all feasible ones
static u64 concretize(State &S, const SV &v, const char *why) {
  if (!v.sym()) return v.c;
  auto it = S.conc.find(v.e);
  if (it != S.conc.end()) return it->second;
  needModel(S);
  std::vector<std::pair<u64, std::shared_ptr<z3::model>>> vals;
  std::vector<Z3_ast> excl;
  u64 first = modelVal(*S.model, v.e);
  vals.push_back({first, S.model});
  const size_t LIM = 4200;
  size_t base = S.pc.size();
  for (;;) {
    Z3_ast ne = keep(Z3_mk_not(Z, Z3_mk_eq(Z, v.e, bvconst(vals.back().first, v.w))));
    S.pc.push_back(ne);
    std::shared_ptr<z3::model> m;
    bool ok;
    try { ok = query(S, nullptr, &m); } catch (...) { S.pc.resize(base); throw; }
    if (!ok) break;
    vals.push_back({modelVal(*m, v.e), m});
    if (vals.size() > LIM) { S.pc.resize(base); unsup(std::string("too many values while resolving a symbolic ") + why); }
  }
  S.pc.resize(base);
  for (size_t i = 1; i < vals.size(); i++) {
    State *T = fork(S);
    addPC(*T, keep(Z3_mk_eq(Z, v.e, bvconst(vals[i].first, v.w))), vals[i].second);
    T->conc[v.e] = vals[i].first;
  }
  if (vals.size() > 1) addPC(S, keep(Z3_mk_eq(Z, v.e, bvconst(vals[0].first, v.w))), vals[0].second);
  S.conc[v.e] = vals[0].first;
  return vals[0].first;
}

// ------------------------------------------------------------------ types
struct Leaf { u64 off; Type *t; };
static std::map<Type *, std::vector<Leaf>> leafCache;
static u32 bitsOf(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  std::string s;
  raw_string_ostream o(s);
  t->print(o);
  unsup("type " + o.str());
}
static const std::vector<Leaf> &leaves(Type *t) {
  auto it = leafCache.find(t);
  if (it != leafCache.end()) return it->second;
  std::vector<Leaf> v;
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      for (auto &l : std::vector<Leaf>(leaves(st->getElementType(i)))) v.push_back({(u64)sl->getElementOffset(i) + l.off, l.t});
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++)
      for (auto &l : std::vector<Leaf>(leaves(at->getElementType()))) v.push_back({i * es + l.off, l.t});
  } else v.push_back({0, t});
  return leafCache[t] = v;
}
static bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy(); }
static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx, Type **out) {
  unsigned k = 0;
  for (unsigned i : idx) {
    if (auto *st = dyn_cast<StructType>(t)) {
      for (unsigned j = 0; j < i; j++) k += leaves(st->getElementType(j)).size();
      t = st->getElementType(i);
    } else {
      auto *at = cast<ArrayType>(t);
      k += i * leaves(at->getElementType()).size();
      t = at->getElementType();
    }
  }
  *out = t;
  return k;
}
static RV loadT(State &S, u64 a, Type *t, const char *what) {
  RV r;
  if (!isAgg(t)) { r.s = loadInt(S, a, bitsOf(t), what); return r; }
  r.agg = std::make_shared<std::vector<SV>>();
  for (auto &l : leaves(t)) r.agg->push_back(loadInt(S, a + l.off, bitsOf(l.t), what));
  return r;
}
static void storeT(State &S, u64 a, Type *t, const RV &v, const char *what) {
  if (!isAgg(t)) { storeInt(S, a, v.s, what); return; }
  auto &ls = leaves(t);
  for (size_t i = 0; i < ls.size(); i++) storeInt(S, a + ls[i].off, (*v.agg)[i], what);
}

// ------------------------------------------------------------------ code tables
static std::unordered_map<const Function *, u64> fnAddr;
static std::unordered_map<u64, const Function *> addrFn;
static std::unordered_map<const GlobalVariable *, u64> gvAddr;
static std::unordered_map<const Function *, std::unique_ptr<DFunc>> dfuncs;
static std::vector<RV> constPool;
static std::unordered_map<const Constant *, int> constIdx;

static RV constVal(const Constant *C);
static u64 constInt(const Constant *C) {
  RV r = constVal(C);
  if (r.s.sym()) unsup("symbolic constant");
  return r.s.c;
}
static u64 gepOffsetConst(const GEPOperator *g) {
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(*DL, off)) unsup("non-constant constant gep");
  return off.getZExtValue();
}
static RV constVal(const Constant *C) {
  RV r;
  Type *t = C->getType();
  if (isAgg(t)) {
    r.agg = std::make_shared<std::vector<SV>>();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
      for (auto &l : leaves(t)) r.agg->push_back(SV(0, bitsOf(l.t)));
      return r;
    }
    if (auto *cds = dyn_cast<ConstantDataSequential>(C)) {
      for (unsigned i = 0; i < cds->getNumElements(); i++) r.agg->push_back(constVal(cds->getElementAsConstant(i)).s);
      return r;
    }
    for (unsigned i = 0; i < C->getNumOperands(); i++) {
      RV x = constVal(cast<Constant>(C->getOperand(i)));
      if (x.agg) for (auto &y : *x.agg) r.agg->push_back(y);
      else r.agg->push_back(x.s);
    }
    return r;
  }
  if (t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) { r.s = SV(0, 64); return r; }
  u32 w = bitsOf(t);
  if (auto *ci = dyn_cast<ConstantInt>(C)) {
    if (w <= 64) r.s = SV(ci->getZExtValue(), w);
    else {
      SmallString<64> s;
      ci->getValue().toStringUnsigned(s);
      r.s.w = w;
      r.s.e = keep(Z3_mk_numeral(Z, std::string(s).c_str(), Z3_mk_bv_sort(Z, w)));
    }
    return r;
  }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) { r.s = SV(0, w); return r; }
  if (auto *cf = dyn_cast<ConstantFP>(C)) { r.s = SV(cf->getValueAPF().bitcastToAPInt().getZExtValue(), w); return r; }
  if (auto *F = dyn_cast<Function>(C)) { r.s = SV(fnAddr.at(F), 64); return r; }
  if (auto *G = dyn_cast<GlobalVariable>(C)) { r.s = SV(gvAddr.at(G), 64); return r; }
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
  if (auto *g = dyn_cast<GEPOperator>(C)) {
    r.s = SV(constInt(cast<Constant>(g->getPointerOperand())) + gepOffsetConst(g), 64);
    return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
      case Instruction::Trunc:
        r.s = SV(constInt(ce->getOperand(0)), w);
        return r;
      case Instruction::Add: r.s = SV(constInt(ce->getOperand(0)) + constInt(ce->getOperand(1)), w); return r;
      case Instruction::Sub: r.s = SV(constInt(ce->getOperand(0)) - constInt(ce->getOperand(1)), w); return r;
      case Instruction::Xor: r.s = SV(constInt(ce->getOperand(0)) ^ constInt(ce->getOperand(1)), w); return r;
      case Instruction::ICmp:
        r.s = cmp((CmpInst::Predicate)ce->getPredicate(), constVal(ce->getOperand(0)).s, constVal(ce->getOperand(1)).s);
        return r;
      default: break;
    }
  }
  std::string s;
  raw_string_ostream o(s);
  C->print(o);
  unsup("constant " + o.str());
}
static int constSlot(const Constant *C) {
  auto it = constIdx.find(C);
  if (it != constIdx.end()) return ~it->second;
  int i = constPool.size();
  constPool.push_back(constVal(C));
  constIdx[C] = i;
  return ~i;
}
static DFunc *decode(const Function *F) {
  auto &p = dfuncs[F];
  if (p) return p.get();
  p.reset(new DFunc);
  DFunc *d = p.get();
  d->F = F;
  if (auto *sp = F->getSubprogram()) {
    std::string f = sp->getFilename().str(), dir = sp->getDirectory().str();
    if (!f.empty() && f[0] != '/') f = dir + "/" + f;
    d->isRepo = f.compare(0, repoPrefix.size(), repoPrefix) == 0;
  }
  for (auto &a : F->args()) d->slot[&a] = d->nslots++;
  int bi = 0;
  for (auto &b : *F) {
    d->bbIdx[&b] = bi++;
    for (auto &i : b)
      if (!i.getType()->isVoidTy()) d->slot[&i] = d->nslots++;
  }
  for (auto &b : *F) {
    DBlock db;
    db.bb = &b;
    for (auto &i : b) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      DInst di;
      di.I = &i;
      di.op = i.getOpcode();
      if (!i.getType()->isVoidTy()) di.res = d->slot[&i];
      for (auto &u : i.operands()) {
        Value *v = u.get();
        if (auto *c = dyn_cast<Constant>(v)) {
          if (isa<PHINode>(i) || !isa<LandingPadInst>(i)) di.ops.push_back(constSlot(c));
          else di.ops.push_back(0);
        } else if (isa<BasicBlock>(v)) di.ops.push_back(d->bbIdx[cast<BasicBlock>(v)]);
        else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) di.ops.push_back(0);
        else di.ops.push_back(d->slot[v]);
      }
      db.insts.push_back(std::move(di));
    }
    d->blocks.push_back(std::move(db));
  }
  return d;
}
static inline const RV &opv(Frame &f, int o) { return o >= 0 ? f.regs[o] : constPool[~o]; }

// ------------------------------------------------------------------ arithmetic
static int64_t sext(u64 v, u32 w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static SV bin(unsigned op, const SV &a, const SV &b) {
  u32 w = a.w;
  if (!a.sym() && !b.sym() && w <= 64) {
    u64 x = a.c, y = b.c;
    switch (op) {
      case Instruction::Add: return SV(x + y, w);
      case Instruction::Sub: return SV(x - y, w);
      case Instruction::Mul: return SV(x * y, w);
      case Instruction::And: return SV(x & y, w);
      case Instruction::Or: return SV(x | y, w);
      case Instruction::Xor: return SV(x ^ y, w);
      case Instruction::Shl: return SV(y >= w ? 0 : x << y, w);
      case Instruction::LShr: return SV(y >= w ? 0 : x >> y, w);
      case Instruction::AShr: return SV((u64)(sext(x, w) >> (y >= w ? w - 1 : y)), w);
      case Instruction::UDiv: return SV(y ? x / y : 0, w);
      case Instruction::URem: return SV(y ? x % y : 0, w);
      case Instruction::SDiv: return SV(y ? (sext(y, w) == -1 ? (u64)-x : (u64)(sext(x, w) / sext(y, w))) : 0, w);
      case Instruction::SRem: return SV(y ? (sext(y, w) == -1 ? 0 : (u64)(sext(x, w) % sext(y, w))) : 0, w);
    }
  }
  Z3_ast x = toE(a), y = toE(b), r = nullptr;
  switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break;
    case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break;
    case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(Z, x, y); break;
    case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break;
    case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(Z, x, y); break;
    case Instruction::LShr: r = Z3_mk_bvlshr(Z, x, y); break;
    case Instruction::AShr: r = Z3_mk_bvashr(Z, x, y); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x, y); break;
    case Instruction::URem: r = Z3_mk_bvurem(Z, x, y); break;
    case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x, y); break;
    case Instruction::SRem: r = Z3_mk_bvsrem(Z, x, y); break;
    default: unsup("binop");
  }
  return mkSV(keep(r), w);
}
static SV cmp(CmpInst::Predicate p, const SV &a, const SV &b) {
  if (!a.sym() && !b.sym() && a.w <= 64) {
    u64 x = a.c, y = b.c;
    int64_t sx = sext(x, a.w), sy = sext(y, a.w);
    bool r = false;
    switch (p) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break;
      case CmpInst::ICMP_SLE: r = sx <= sy; break;
      case CmpInst::ICMP_SGT: r = sx > sy; break;
      case CmpInst::ICMP_SGE: r = sx >= sy; break;
      default: unsup("icmp");
    }
    return SV(r, 1);
  }
  Z3_ast x = toE(a), y = toE(b), r = nullptr;
  switch (p) {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break;
    case CmpInst::ICMP_NE: r = Z3_mk_not(Z, keep(Z3_mk_eq(Z, x, y))); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break;
    case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break;
    case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break;
    case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break;
    case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break;
    case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break;
    default: unsup("icmp");
  }
  return svOfBool(keep(r));
}
static SV castTo(unsigned op, const SV &a, u32 w) {
  if (!a.sym() && a.w <= 64 && w <= 64) {
    switch (op) {
      case Instruction::SExt: return SV((u64)sext(a.c, a.w), w);
      default: return SV(a.c, w);
    }
  }
  Z3_ast x = toE(a);
  switch (op) {
    case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
      if (w == a.w) return a;
      if (w > a.w) return mkSV(keep(Z3_mk_zero_ext(Z, w - a.w, x)), w);
      return mkSV(keep(Z3_mk_extract(Z, w - 1, 0, x)), w);
    case Instruction::SExt: return mkSV(keep(Z3_mk_sign_ext(Z, w - a.w, x)), w);
  }
  unsup("cast");
}
static double asD(const SV &v) {
  if (v.sym()) unsup("symbolic floating-point arithmetic");
  if (v.w == 32) { float f; u32 c = v.c; memcpy(&f, &c, 4); return f; }
  double d;
  memcpy(&d, &v.c, 8);
  return d;
}
static SV fromD(double d, u32 w) {
  if (w == 32) { float f = d; u32 c; memcpy(&c, &f, 4); return SV(c, 32); }
  u64 c;
  memcpy(&c, &d, 8);
  return SV(c, 64);
}

// ------------------------------------------------------------------ control flow
static void enterBlock(State &S, Frame &f, int bb) {
  int prev = f.bb;
  f.prevbb = prev;
  f.bb = bb;
  f.ip = 0;
  DBlock &B = f.f->blocks[bb];
  if (!B.insts.empty() && B.insts[0].op == Instruction::PHI) {
    std::vector<std::pair<int, RV>> upd;
    const BasicBlock *pb = f.f->blocks[prev].bb;
    while (f.ip < (int)B.insts.size() && B.insts[f.ip].op == Instruction::PHI) {
      DInst &d = B.insts[f.ip];
      d.visited = true;
      auto *ph = cast<PHINode>(d.I);
      int k = ph->getBasicBlockIndex(pb);
      upd.push_back({d.res, opv(f, d.ops[k])});
      f.ip++;
    }
    for (auto &u : upd) f.regs[u.first] = u.second;
  }
}
static void killObj(State &S, u64 base) {
  MemObj *o = wr(S, base);
  o->alive = false;
  o->pages.drop();
}
static void killAllocas(State &S, Frame &f) {
  for (u64 a : f.allocas) {
    auto it = S.mem.find(a);
    if (it != S.mem.end() && it->second->alive) killObj(S, a);
  }
  f.allocas.clear();
}
static u64 stackAlloc(State &S, u64 size, u64 align) {
  if (align < 8) align = 8;
  u64 b = alignUp(S.nextStack, align * 2) + align;  // aligned as required and to nothing more
  S.nextStack = b + size + 64;
  auto o = mkObj(b, size, O_STACK);
  o->ctx = S.cur;
  S.mem[b] = o;
  return b;
}
static void pushFrame(State &S, const Function *F, const std::vector<RV> &args, OnRet onret = R_NONE, u64 rd = 0) {
  auto &fr = S.ctxs[S.cur].frames;
  if (fr.size() > 2000) violate(S, "hang", "unbounded recursion");
  DFunc *d = decode(F);
  d->entered = true;
  fr.emplace_back();
  Frame &f = fr.back();
  f.f = d;
  f.regs.resize(d->nslots);
  f.onret = onret;
  f.retdata = rd;
  for (size_t i = 0; i < F->arg_size() && i < args.size(); i++) {
    const Argument *A = F->getArg(i);
    if (A->hasByValAttr()) {
      Type *bt = A->getParamByValType();
      u64 al = A->getParamAlign().valueOrOne().value();
      u64 n = DL->getTypeAllocSize(bt);
      u64 b = stackAlloc(S, n, al);
      f.allocas.push_back(b);
      copyMem(S, b, args[i].s.c, n);
      f.regs[i].s = SV(b, 64);
    } else f.regs[i] = args[i];
  }
}
static DInst &curInst(State &S) {
  Frame &f = S.ctxs[S.cur].frames.back();
  return f.f->blocks[f.bb].insts[f.ip];
}
// complete the call instruction the top frame of the current context is waiting at
static void finishCall(State &S, const RV &r) {
  Frame &f = S.ctxs[S.cur].frames.back();
  DInst &d = f.f->blocks[f.bb].insts[f.ip];
  if (d.res >= 0) f.regs[d.res] = r;
  if (auto *inv = dyn_cast<InvokeInst>(d.I)) enterBlock(S, f, f.f->bbIdx[inv->getNormalDest()]);
  else f.ip++;
}
static void finishVoid(State &S) { finishCall(S, RV()); }

// ------------------------------------------------------------------ exceptions
struct TIClass { std::vector<std::pair<u64, long>> bases; bool pointer = false; };
static std::map<u64, TIClass> tinfo;
static std::map<std::string, u64> tiByName;
static std::map<u64, u32> typeIds;
static u32 typeId(u64 ti) {
  auto it = typeIds.find(ti);
  if (it != typeIds.end()) return it->second;
  u32 n = typeIds.size() + 1;
  return typeIds[ti] = n;
}
static bool derives(u64 from, u64 to, long &adj) {
  if (from == to) return true;
  auto it = tinfo.find(from);
  if (it == tinfo.end()) return false;
  for (auto &b : it->second.bases) {
    long a = 0;
    if (derives(b.first, to, a)) { adj = a + b.second; return true; }
  }
  return false;
}
static void initTypeInfo() {
  for (auto &g : M->globals()) {
    std::string n = g.getName().str();
    if (n.compare(0, 4, "_ZTI") != 0) continue;
    u64 a = gvAddr[&g];
    tiByName[n] = a;
    tinfo[a].pointer = n.compare(0, 5, "_ZTIP") == 0;
    if (!g.hasInitializer()) continue;
    auto *init = dyn_cast<ConstantStruct>(g.getInitializer());
    if (!init) continue;
    std::string vt;
    const Value *v = init->getOperand(0)->stripInBoundsConstantOffsets();
    if (auto *gv = dyn_cast<GlobalVariable>(v)) vt = gv->getName().str();
    TIClass &tc = tinfo[a];
    if (vt.find("__si_class_type_info") != std::string::npos) {
      tc.bases.push_back({constInt(init->getOperand(2)), 0});
    } else if (vt.find("__vmi_class_type_info") != std::string::npos) {
      for (unsigned i = 4; i + 1 < init->getNumOperands(); i += 2) {
        long of = (long)constInt(init->getOperand(i + 1));
        if ((of & 1) || !(of & 2)) continue;  // virtual or non-public: not modelled
        tc.bases.push_back({constInt(init->getOperand(i)), of >> 8});
      }
    } else if (vt.find("__pointer_type_info") != std::string::npos) tc.pointer = true;
  }
  auto ext = [&](const char *d, const char *b) {
    if (tiByName.count(d) && tiByName.count(b)) tinfo[tiByName[d]].bases.push_back({tiByName[b], 0});
  };
  const char *E = "_ZTISt9exception", *R = "_ZTISt13runtime_error", *L = "_ZTISt11logic_error";
  for (const char *d : {"_ZTISt13runtime_error", "_ZTISt11logic_error", "_ZTISt9bad_alloc", "_ZTISt8bad_cast", "_ZTISt10bad_typeid",
                        "_ZTISt13bad_exception", "_ZTISt17bad_function_call"}) ext(d, E);
  for (const char *d : {"_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt16invalid_argument", "_ZTISt12domain_error"}) { ext(d, L); if (!tiByName.count(L)) ext(d, E); }
  for (const char *d : {"_ZTISt11range_error", "_ZTISt14overflow_error", "_ZTISt15underflow_error", "_ZTISt12system_error"}) { ext(d, R); if (!tiByName.count(R)) ext(d, E); }
}
static Globals &eg(State &S) { return S.eh[S.thread]; }

// 1 handler, 0 only cleanup, -1 does not stop here
static int landing(State &S, const LandingPadInst *lp, const Occ &oc, u32 &sel) {
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    Constant *c = lp->getClause(i);
    if (lp->isCatch(i)) {
      u64 ti = constInt(c);
      long adj = 0;
      if (ti == 0 || derives(oc.ti, ti, adj)) { sel = typeId(ti); return 1; }
    } else {
      if (c->getType()->isArrayTy() && cast<ArrayType>(c->getType())->getNumElements() == 0) { sel = (u32)-1; return 1; }
    }
  }
  if (lp->isCleanup()) { sel = 0; return 0; }
  return -1;
}
static void terminateV(State &S, const char *why) { violate(S, "terminate", why); }

static void unwind(State &S, u64 occId, bool fromResume) {
  Occ oc = S.occs.at(occId);
  auto &fr = S.ctxs[S.cur].frames;
  if (fromResume) {
    if (fr.back().onret != R_NONE) terminateV(S, "exception leaves a destructor run by the C++ runtime");
    killAllocas(S, fr.back());
    fr.pop_back();
  }
  bool handler = false;
  for (int i = (int)fr.size() - 1; i >= 0; i--) {
    const Instruction *I = fr[i].f->blocks[fr[i].bb].insts[fr[i].ip].I;
    u32 sel;
    if (auto *inv = dyn_cast<InvokeInst>(I))
      if (landing(S, inv->getLandingPadInst(), oc, sel) == 1) { handler = true; break; }
    if (fr[i].onret != R_NONE) break;
  }
  if (!handler) terminateV(S, "exception has no handler on this stack: std::terminate");
  while (!fr.empty()) {
    Frame &f = fr.back();
    const Instruction *I = f.f->blocks[f.bb].insts[f.ip].I;
    if (auto *inv = dyn_cast<InvokeInst>(I)) {
      u32 sel = 0;
      int r = landing(S, inv->getLandingPadInst(), oc, sel);
      if (r >= 0) {
        S.lpId = occId;
        S.lpSel = sel;
        if (r == 1) {
          // remember the adjustment for __cxa_begin_catch
        }
        enterBlock(S, f, f.f->bbIdx[inv->getUnwindDest()]);
        return;
      }
    }
    if (f.onret != R_NONE) terminateV(S, "exception leaves a destructor run by the C++ runtime");
    killAllocas(S, f);
    fr.pop_back();
  }
  terminateV(S, "exception leaves the context");
}
static void excRelease(State &S, u64 obj, bool &pushed) {
  ExcObj &x = S.excs.at(obj);
  pushed = false;
  if (--x.refs > 0) return;
  if (x.dtor) {
    auto it = addrFn.find(x.dtor);
    if (it == addrFn.end()) unsup("exception destructor");
    if (it->second->isDeclaration()) { x.alive = false; killObj(S, obj); return; }
    std::vector<RV> a(1);
    a[0].s = SV(obj, 64);
    pushFrame(S, it->second, a, R_FREE_EXC, obj);
    pushed = true;
    return;
  }
  x.alive = false;
  killObj(S, obj);
}
static SV adjustedPtr(State &S, const Occ &o) {   // the value of a thrown pointer, the address of anything else
  auto it = tinfo.find(o.ti);
  if (it != tinfo.end() && it->second.pointer) return loadInt(S, o.obj, 64, "exception object");
  return SV(o.obj, 64);
}

// ------------------------------------------------------------------ contexts
static void switchTo(State &S, int ctx) {
  S.cur = ctx;
  S.switches++;
  nSwitches++;
}
static RV transfer(u64 h, u64 d) {
  RV r;
  r.agg = std::make_shared<std::vector<SV>>();
  r.agg->push_back(SV(h, 64));
  r.agg->push_back(SV(d, 64));
  return r;
}
static int ctxOfHandle(State &S, u64 h) {
  if (h) for (size_t i = 0; i < S.ctxs.size(); i++)
    if (S.ctxs[i].handle == h && (S.ctxs[i].st == C_SUSP || S.ctxs[i].st == C_NEW)) return i;
  return -1;
}
static void jump(State &S, u64 to, const SV &data, u64 ontop) {
  int t = ctxOfHandle(S, to);
  if (t < 0) violate(S, "context", to ? "resuming a context that is not suspended (stale or dead continuation)" : "resuming an empty continuation");
  Context &me = S.ctxs[S.cur];
  me.st = C_SUSP;
  me.handle = (S.nextHandle += 16);
  me.ontop = ontop != 0;
  u64 from = me.handle;
  Context &T = S.ctxs[t];
  bool fresh = T.st == C_NEW;
  T.st = C_RUN;
  T.ontop = false;
  T.handle = 0;
  switchTo(S, t);
  std::vector<RV> a(2);
  a[0].s = SV(from, 64);
  a[1].s = data;
  if (ontop) {
    if (fresh) unsup("ontop on a fresh context");
    auto it = addrFn.find(ontop);
    if (it == addrFn.end() || it->second->isDeclaration()) unsup("ontop target");
    pushFrame(S, it->second, a);  // its result becomes the result of the pending switch
    return;
  }
  if (fresh) { pushFrame(S, T.entry, a); return; }
  RV r = transfer(from, 0);
  (*r.agg)[1] = data;
  finishCall(S, r);
}
static void killCtx(State &S, int c) {
  Context &C = S.ctxs[c];
  C.st = C_DEAD;
  for (auto &f : C.frames) killAllocas(S, f);
  C.frames.clear();
}
static void freeObj(State &S, u64 p, const char *what, int how) {
  MemObj *o = findObj(S, p);
  if (!o || o->base != p || (o->kind != O_HEAP && o->kind != O_MMAP)) violate(S, "memory", std::string("invalid ") + what);
  if (!o->alive) violate(S, "memory", std::string("double ") + what);
  if (how >= 0 && o->allocKind != how) violate(S, "memory", std::string("mismatched allocation and ") + what);
  auto regs = o->regions;
  for (auto &r : regs) {
    if (S.ctxs[r.ctx].st == C_DEAD) continue;
    if (S.ctxs[r.ctx].st == C_RUN) violate(S, "memory", "the stack of the running context is released");
    killCtx(S, r.ctx);
  }
  raceFree(S, findObj(S, p));
  if (o->size >= 2048) S.heapBig--;
  killObj(S, p);
  S.heapLive--;
}

// ------------------------------------------------------------------ builtins
static std::string cstr(State &S, u64 a) {
  std::string s;
  for (;;) {
    SV b = loadInt(S, a++, 8, "string");
    if (b.sym()) { s += '?'; continue; }
    if (!b.c) break;
    s += (char)b.c;
    if (s.size() > 400) break;
  }
  return s;
}
static SV freshInput(State &S, const std::string &name, u32 w) {
  std::string nm = name + "#" + std::to_string(S.nameCtr[name]++);
  SV v;
  v.w = w;
  SymInput in;
  in.name = nm;
  in.w = w;
  in.isConc = false;
  in.conc = 0;
  if (useTape) {
    size_t k = S.inputs.size();
    in.isConc = true;
    in.conc = k < fixedTape.size() ? fixedTape[k] : 0;
    in.e = nullptr;
    S.inputs.push_back(in);
    return SV(in.conc, w);
  }
  v.e = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), Z3_mk_bv_sort(Z, w)));
  in.e = v.e;
  S.inputs.push_back(in);
  // a fresh variable never falsifies the cached model (completion picks a value)
  return v;
}
static void assumeC(State &S, const SV &b) {
  if (!b.sym()) {
    if (!b.c) { nAssumeKilled++; throw KillPath(); }
    return;
  }
  std::shared_ptr<z3::model> m;
  Z3_ast c = boolOf(b);
  if (!feasible(S, c, &m)) { nAssumeKilled++; throw KillPath(); }
  addPC(S, c, m);
}
typedef std::vector<RV> Args;
typedef std::function<void(State &, const CallBase *, Args &)> BI;
static std::unordered_map<std::string, BI> builtins;
static RV rv(u64 c, u32 w) { RV r; r.s = SV(c, w); return r; }
static SV toBool(const SV &v) {
  if (v.w == 1) return v;
  return cmp(CmpInst::ICMP_NE, v, SV(0, v.w));
}
static RV retFor(const CallBase *cb, u64 v = 0) {
  Type *t = cb->getType();
  if (t->isVoidTy()) return RV();
  if (isAgg(t)) {
    RV r;
    r.agg = std::make_shared<std::vector<SV>>();
    for (auto &l : leaves(t)) r.agg->push_back(SV(0, bitsOf(l.t)));
    return r;
  }
  return rv(v, bitsOf(t));
}
static u64 C(State &S, const RV &a, const char *w = "argument") { return concretize(S, a.s, w); }

static void setupBuiltins() {
  auto add = [&](std::initializer_list<const char *> ns, BI f) { for (auto n : ns) builtins[n] = f; };
  auto noop = [](State &S, const CallBase *cb, Args &) { finishCall(S, retFor(cb)); };
  // --- harness interface
  add({"sym_u64"}, [](State &S, const CallBase *, Args &a) {
    u32 bits = C(S, a[1]);
    std::string n = cstr(S, C(S, a[0]));
    SV v = freshInput(S, n, bits);
    RV r; r.s = castTo(Instruction::ZExt, v, 64);
    finishCall(S, r);
  });
  add({"sym_choice"}, [](State &S, const CallBase *, Args &a) {
    u64 n = C(S, a[1]);
    std::string nm = cstr(S, C(S, a[0]));
    SV v = freshInput(S, nm, 32);
    assumeC(S, cmp(CmpInst::ICMP_ULT, v, SV(n, 32)));
    RV r; r.s = v;
    finishCall(S, r);
  });
  add({"sym_pick"}, [](State &S, const CallBase *, Args &a) {  // as sym_choice, split into n paths at once
    u64 n = C(S, a[1]);
    std::string nm = cstr(S, C(S, a[0]));
    SV v = freshInput(S, nm, 32);
    if (!v.sym()) {
      if (v.c >= n) { nAssumeKilled++; throw KillPath(); }
      finishCall(S, rv(v.c, 32));
      return;
    }
    for (u64 i = n; i-- > 1;) {
      State *T = fork(S);
      T->pc.push_back(keep(Z3_mk_eq(Z, v.e, bvconst(i, 32))));
      T->model.reset();
      finishCall(*T, rv(i, 32));
    }
    S.pc.push_back(keep(Z3_mk_eq(Z, v.e, bvconst(0, 32))));
    S.model.reset();
    finishCall(S, rv(0, 32));
  });
  add({"sym_assume"}, [](State &S, const CallBase *, Args &a) { assumeC(S, toBool(a[0].s)); finishVoid(S); });
  add({"sym_check"}, [](State &S, const CallBase *, Args &a) {
    nChecks++;
    S.checks++;
    SV b = toBool(a[0].s);
    if (!b.sym()) {
      if (!b.c) violate(S, "check", cstr(S, C(S, a[1])));
      finishVoid(S);
      return;
    }
    nSymChecks++;
    std::string msg = cstr(S, C(S, a[1]));
    std::shared_ptr<z3::model> m;
    Z3_ast c = boolOf(b);
    nCheckQueries++;
    if (feasible(S, mkNot(c), &m)) {
      report(S, "check", msg, m);
      if (!feasible(S, c, &m)) throw KillPath();
      addPC(S, c, m);
    }
    finishVoid(S);
  });
  add({"sym_cover"}, [](State &S, const CallBase *, Args &a) {
    needModel(S);
    std::string n = cstr(S, C(S, a[0]));
    covers[n]++;
    S.covers.push_back(n);
    u64 h = 14695981039346656037ull;
    for (unsigned char ch : n) h = (h ^ ch) * 1099511628211ull;
    S.obs.push_back(SV(h, 64));
    finishVoid(S);
  });
  add({"sym_observe"}, [](State &S, const CallBase *, Args &a) { S.obs.push_back(a[0].s); finishVoid(S); });
  add({"sym_live_heap"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv((u64)(int64_t)S.heapLive, 32)); });
  add({"sym_live_stacks"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv((u64)(int64_t)S.heapBig, 32)); });
  add({"sym_heap_made"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv(S.heapMade, 64)); });
  add({"sym_thread"}, [](State &S, const CallBase *, Args &a) { S.thread = (int)C(S, a[0]); finishVoid(S); });
  add({"sym_race"}, [](State &S, const CallBase *, Args &a) {   // between sym_race(1) and sym_race(0) sym_run_on orders nothing
    S.race.reset();
    if (C(S, a[0])) {
      S.race = std::make_shared<Race>();
      for (int t = 0; t < 4; t++) for (int u = 0; u < 4; u++) S.race->vc[t][u] = t == u;
    }
    finishVoid(S);
  });
  add({"sym_point"}, [](State &S, const CallBase *, Args &) { finishVoid(S); });
  add({"sym_run_on"}, [](State &S, const CallBase *, Args &a) {
    int t = (int)C(S, a[0]);
    u64 fn = C(S, a[1], "function pointer");
    auto it = addrFn.find(fn);
    if (it == addrFn.end() || it->second->isDeclaration()) unsup("sym_run_on target");
    std::vector<RV> x(1);
    x[0] = a[2];
    int old = S.thread;
    if (t != 0)
      if (auto *g = M->getNamedGlobal("__libc_single_threaded")) if (gvAddr.count(g)) storeInt(S, gvAddr[g], SV(0, 8), "init");
    S.thread = t;
    finishVoid(S);
    pushFrame(S, it->second, x, R_THREAD, (u64)old);
  });
  // end of a thread: destructors of its thread-local objects, then their storage goes away
  add({"__cxa_thread_atexit", "__cxa_thread_atexit_impl"}, [](State &S, const CallBase *cb, Args &a) {
    S.tlsDtors.push_back({S.thread, {C(S, a[0], "function pointer"), C(S, a[1], "thread-local object")}});
    finishCall(S, retFor(cb));
  });
  add({"sym_tls_dtor"}, [](State &S, const CallBase *, Args &a) {
    int t = (int)C(S, a[0]);
    for (size_t i = S.tlsDtors.size(); i-- > 0;)
      if (S.tlsDtors[i].first == t) {
        auto d = S.tlsDtors[i].second;
        S.tlsDtors.erase(S.tlsDtors.begin() + i);
        storeInt(S, C(S, a[1], "pointer"), SV(d.second, 64), "thread exit");
        finishCall(S, rv(d.first, 64));
        return;
      }
    finishCall(S, rv(0, 64));
  });
  add({"sym_end_thread"}, [](State &S, const CallBase *, Args &a) {
    int t = (int)C(S, a[0]);
    if (S.thread == t || t == 0) unsup("sym_end_thread");
    for (auto it = S.tls.begin(); it != S.tls.end();)
      if (it->first.first == t) { killObj(S, it->second); it = S.tls.erase(it); } else ++it;
    finishVoid(S);
  });
  // run a thread until it yields (0) or its function returns (1)
  add({"sym_step"}, [](State &S, const CallBase *, Args &a) {
    int t = (int)C(S, a[0]);
    if (S.thread != 0 || t < 1 || t > 3) unsup("sym_step from or on this thread");
    if (auto *g = M->getNamedGlobal("__libc_single_threaded")) if (gvAddr.count(g)) storeInt(S, gvAddr[g], SV(0, 8), "init");
    S.tcaller = S.cur;
    S.thread = t;
    if (S.tctx[t] >= 0) { S.cur = S.tctx[t]; S.tctx[t] = -1; return; }
    u64 fn = C(S, a[1], "function pointer");
    auto it = addrFn.find(fn);
    if (it == addrFn.end() || it->second->isDeclaration()) unsup("sym_step target");
    std::vector<RV> x(1);
    x[0] = a[2];
    Context c = Context();
    c.st = C_RUN;
    S.cur = S.ctxs.size();
    S.ctxs.push_back(c);
    pushFrame(S, it->second, x, R_STEP);
  });
  add({"sym_yield"}, [](State &S, const CallBase *, Args &a) {
    finishVoid(S);
    if (S.thread == 0) return;
    S.tctx[S.thread] = S.cur;
    S.thread = 0;
    S.cur = S.tcaller;
    finishCall(S, rv(0, 32));
  });
  add({"sym_block_size"}, [](State &S, const CallBase *, Args &a) { MemObj *o = findObj(S, C(S, a[0])); finishCall(S, rv(o && o->alive ? o->size : 0, 64)); });
  add({"sym_block_kind"}, [](State &S, const CallBase *, Args &a) { MemObj *o = findObj(S, C(S, a[0])); finishCall(S, rv(o && o->alive && (o->kind == O_HEAP || o->kind == O_MMAP) ? o->allocKind : ~0ull, 32)); });
  add({"sym_concrete"}, [](State &S, const CallBase *, Args &a) { RV r = rv(C(S, a[0], "value"), 64); finishCall(S, r); });
  // --- libc
  add({"malloc"}, [](State &S, const CallBase *, Args &a) { u64 n = C(S, a[0], "allocation size"); finishCall(S, rv(heapAlloc(S, n, 0), 64)); });
  add({"calloc"}, [](State &S, const CallBase *, Args &a) {
    u64 n = C(S, a[0], "allocation size") * C(S, a[1], "allocation size");
    u64 b = heapAlloc(S, n, 0);
    wr(S, b)->zeroDefault = true;
    finishCall(S, rv(b, 64));
  });
  add({"aligned_alloc"}, [](State &S, const CallBase *, Args &a) { u64 al = C(S, a[0]), n = C(S, a[1]); finishCall(S, rv(heapAlloc(S, n, 0, al), 64)); });
  add({"free"}, [](State &S, const CallBase *, Args &a) { u64 p = C(S, a[0], "pointer"); if (p) freeObj(S, p, "free", 0); finishVoid(S); });
  add({"_Znwm", "_ZnwmRKSt9nothrow_t"}, [](State &S, const CallBase *, Args &a) { u64 n = C(S, a[0]); finishCall(S, rv(heapAlloc(S, n, 1), 64)); });
  add({"_Znam", "_ZnamRKSt9nothrow_t"}, [](State &S, const CallBase *, Args &a) { u64 n = C(S, a[0]); finishCall(S, rv(heapAlloc(S, n, 2), 64)); });
  add({"_ZnwmSt11align_val_t"}, [](State &S, const CallBase *, Args &a) { u64 n = C(S, a[0]), al = C(S, a[1]); finishCall(S, rv(heapAlloc(S, n, 1, al), 64)); });
  add({"_ZnamSt11align_val_t"}, [](State &S, const CallBase *, Args &a) { u64 n = C(S, a[0]), al = C(S, a[1]); finishCall(S, rv(heapAlloc(S, n, 2, al), 64)); });
  add({"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"},
      [](State &S, const CallBase *, Args &a) { u64 p = C(S, a[0], "pointer"); if (p) freeObj(S, p, "delete", 1); finishVoid(S); });
  add({"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"},
      [](State &S, const CallBase *, Args &a) { u64 p = C(S, a[0], "pointer"); if (p) freeObj(S, p, "delete[]", 2); finishVoid(S); });
  add({"mmap"}, [](State &S, const CallBase *, Args &a) { u64 n = C(S, a[1], "mmap size"); finishCall(S, rv(heapAlloc(S, alignUp(n, 4096), 3), 64)); });
  add({"mprotect"}, [](State &S, const CallBase *, Args &a) {
    u64 p = C(S, a[0]), n = C(S, a[1]), pr = C(S, a[2]);
    MemObj *o = findObj(S, p);
    if (o && pr == 0) { o = wr(S, o->base); o->noaccessLo = p - o->base; o->noaccessHi = p - o->base + n; }
    finishCall(S, rv(0, 32));
  });
  add({"munmap"}, [](State &S, const CallBase *, Args &a) {
    u64 p = C(S, a[0], "pointer"), n = C(S, a[1], "size");
    MemObj *o = findObj(S, p);
    if (o && o->base == p && alignUp(n, 4096) != o->size) violate(S, "memory", "munmap of part of a mapping");
    freeObj(S, p, "munmap", 3);
    finishCall(S, rv(0, 32));
  });
  auto memcpyB = [](State &S, const CallBase *cb, Args &a) { u64 d = C(S, a[0], "pointer"), s = C(S, a[1], "pointer"), n = C(S, a[2], "size"); copyMem(S, d, s, n); finishCall(S, cb->getType()->isVoidTy() ? RV() : rv(d, 64)); };
  add({"memcpy", "memmove"}, memcpyB);
  add({"memset"}, [](State &S, const CallBase *cb, Args &a) {
    u64 d = C(S, a[0], "pointer"), n = C(S, a[2], "size");
    SV v = castTo(Instruction::Trunc, a[1].s, 8);
    if (n) { access(S, d, n, true, "memset"); raceAccess(S, d, n, true); MemObj *o = wr(S, findObj(S, d)->base); for (u64 k = 0; k < n; k++) writeByte(o, d + k, v); }
    finishCall(S, cb->getType()->isVoidTy() ? RV() : rv(d, 64));
  });
  add({"memcmp"}, [](State &S, const CallBase *, Args &a) {
    u64 x = C(S, a[0]), y = C(S, a[1]), n = C(S, a[2]);
    SV r(0, 32);
    for (u64 k = n; k-- > 0;) {
      SV p = loadInt(S, x + k, 8, "memcmp"), q = loadInt(S, y + k, 8, "memcmp");
      SV d = bin(Instruction::Sub, castTo(Instruction::ZExt, p, 32), castTo(Instruction::ZExt, q, 32));
      if (!d.sym()) { if (d.c) r = d; }
      else r = mkSV(Z3_mk_ite(Z, Z3_mk_eq(Z, toE(d), bvconst(0, 32)), toE(r), toE(d)), 32);
    }
    RV o; o.s = r; finishCall(S, o);
  });
  add({"strlen"}, [](State &S, const CallBase *, Args &a) { u64 p = C(S, a[0]); u64 n = 0; while (C(S, RV{loadInt(S, p + n, 8, "strlen"), nullptr}) != 0) n++; finishCall(S, rv(n, 64)); });
  add({"strcmp"}, [](State &S, const CallBase *, Args &a) { std::string x = cstr(S, C(S, a[0])), y = cstr(S, C(S, a[1])); finishCall(S, rv((u64)(int64_t)x.compare(y), 32)); });
  add({"printf", "puts", "putchar", "fprintf", "fflush", "__cxa_atexit", "atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "sched_yield"}, noop);
  // --- guards of function-local statics
  add({"__cxa_guard_acquire"}, [](State &S, const CallBase *, Args &a) {
    u64 p = C(S, a[0], "pointer");
    u64 done = C(S, RV{loadInt(S, p, 8, "guard"), nullptr}), busy = C(S, RV{loadInt(S, p + 1, 8, "guard"), nullptr});
    if (!done && busy) violate(S, "terminate", "recursive initialisation of a function-local static");
    if (!done) storeInt(S, p + 1, SV(1, 8), "guard");
    raceSync(S, p, true, false);
    finishCall(S, rv(!done, 32));
  });
  add({"__cxa_guard_release"}, [](State &S, const CallBase *, Args &a) { u64 p = C(S, a[0], "pointer"); storeInt(S, p, SV(1, 8), "guard"); storeInt(S, p + 1, SV(0, 8), "guard"); raceSync(S, p, false, true); finishVoid(S); });
  add({"__cxa_guard_abort"}, [](State &S, const CallBase *, Args &a) { u64 p = C(S, a[0], "pointer"); storeInt(S, p + 1, SV(0, 8), "guard"); finishVoid(S); });
  add({"getpagesize"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv(4096, 32)); });
  add({"sysconf"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv(4096, 64)); });
  add({"abort", "exit", "_exit", "_Exit", "quick_exit"}, [](State &S, const CallBase *cb, Args &) { violate(S, "terminate", cb->getCalledFunction()->getName().str() + "() called"); });
  add({"__assert_fail"}, [](State &S, const CallBase *, Args &a) { violate(S, "assert", "library assertion failed: " + cstr(S, C(S, a[0]))); });
  add({"_ZSt9terminatev"}, [](State &S, const CallBase *, Args &) { violate(S, "terminate", "std::terminate called"); });
  add({"__cxa_call_unexpected"}, [](State &S, const CallBase *, Args &) { violate(S, "terminate", "std::unexpected called"); });
  add({"__cxa_pure_virtual"}, [](State &S, const CallBase *, Args &) { violate(S, "terminate", "pure virtual call"); });
  // --- boost.context stack traits (documented contract: page size, a default size, unbounded)
  add({"_ZN5boost7context12stack_traits9page_sizeEv"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv(4096, 64)); });
  add({"_ZN5boost7context12stack_traits12default_sizeEv"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv(131072, 64)); });
  add({"_ZN5boost7context12stack_traits12minimum_sizeEv"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv(2048, 64)); });
  add({"_ZN5boost7context12stack_traits12maximum_sizeEv"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv(1ull << 30, 64)); });
  add({"_ZN5boost7context12stack_traits12is_unboundedEv"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv(1, 1)); });
  // --- context switching (contract of the Boost.Context assembly primitives)
  add({"make_fcontext"}, [](State &S, const CallBase *, Args &a) {
    u64 top = C(S, a[0], "stack pointer"), fn = C(S, a[2]);
    Context c;
    c.st = C_NEW;
    c.handle = (S.nextHandle += 16);
    auto it = addrFn.find(fn);
    if (it == addrFn.end() || it->second->isDeclaration()) unsup("make_fcontext entry");
    c.entry = it->second;
    c.hi = SV(top, 64);
    c.lo = bin(Instruction::Sub, SV(top, 64), a[1].s);
    int id = S.ctxs.size();
    S.ctxs.push_back(c);
    MemObj *o = findObj(S, top - 1);
    if (!o) violate(S, "memory", "coroutine stack top lies outside any allocation");
    if (!o->alive) violate(S, "memory", "coroutine stack lies in freed memory");
    // the whole run-time stack must be inside the allocation
    SV ok = bin(Instruction::And, cmp(CmpInst::ICMP_UGE, c.lo, SV(o->base, 64)), cmp(CmpInst::ICMP_ULE, c.lo, c.hi));
    if (!ok.sym()) { if (!ok.c) violate(S, "memory", "run-time stack of the coroutine extends outside the allocation"); }
    else {
      std::shared_ptr<z3::model> m;
      if (feasible(S, mkNot(boolOf(ok)), &m)) violate(S, "memory", "run-time stack of the coroutine extends outside the allocation", m);
    }
    for (auto &r : o->regions) {
      if (S.ctxs[r.ctx].st == C_DEAD) continue;
      SV both = bin(Instruction::And, cmp(CmpInst::ICMP_ULT, c.lo, r.hi), cmp(CmpInst::ICMP_UGT, c.hi, r.lo));
      std::shared_ptr<z3::model> m;
      if (both.sym() ? !feasible(S, boolOf(both), &m) : !both.c) continue;
      if (S.ctxs[r.ctx].st == C_SUSP && S.ctxs[r.ctx].ontop) killCtx(S, r.ctx);
      else if (m) violate(S, "memory", "the run-time stacks of two coroutines overlap", m);
      else violate(S, "memory", "the run-time stacks of two coroutines overlap");
    }
    o = wr(S, o->base);
    for (size_t k = 0; k < o->regions.size();)
      if (S.ctxs[o->regions[k].ctx].st == C_DEAD) o->regions.erase(o->regions.begin() + k); else ++k;
    o->regions.push_back({id, c.lo, c.hi});
    if (o->kind != O_HEAP && o->kind != O_MMAP) unsup("coroutine stack not in heap memory");
    u64 h = c.handle;
    Function *hook = M->getFunction("sym_hook_make_fcontext");
    finishCall(S, rv(h, 64));
    if (hook && !hook->isDeclaration()) {
      Args x(2);
      x[0].s = SV(top, 64);
      x[1].s = a[1].s;
      pushFrame(S, hook, x, R_HOOK, 0);
    }
  });
  add({"jump_fcontext"}, [](State &S, const CallBase *, Args &a) { u64 to = C(S, a[0], "context"); jump(S, to, a[1].s, 0); });
  add({"ontop_fcontext"}, [](State &S, const CallBase *, Args &a) { u64 to = C(S, a[0], "context"), fn = C(S, a[2]); jump(S, to, a[1].s, fn); });
  // --- Itanium C++ ABI exceptions (as in libsupc++)
  add({"__cxa_allocate_exception"}, [](State &S, const CallBase *, Args &a) {
    u64 n = C(S, a[0]);
    u64 b = alignUp(S.nextExc, 128) + 16 + 128;
    S.nextExc = b + n + 128;
    S.mem[b] = mkObj(b, n, O_EXC);
    finishCall(S, rv(b, 64));
  });
  add({"__cxa_free_exception"}, [](State &S, const CallBase *, Args &a) { killObj(S, C(S, a[0])); finishVoid(S); });
  add({"__cxa_init_primary_exception"}, [](State &S, const CallBase *, Args &a) {
    u64 obj = C(S, a[0]);
    ExcObj x;
    x.ti = C(S, a[1]);
    x.dtor = C(S, a[2]);
    x.refs = 0;
    S.excs[obj] = x;
    finishCall(S, rv(obj - 128, 64));
  });
  add({"__cxa_throw"}, [](State &S, const CallBase *, Args &a) {
    u64 obj = C(S, a[0]);
    ExcObj x;
    x.ti = C(S, a[1]);
    x.dtor = C(S, a[2]);
    x.refs = 1;
    S.excs[obj] = x;
    Occ o;
    o.id = obj;
    o.obj = obj;
    o.ti = x.ti;
    S.occs[o.id] = o;
    eg(S).uncaught++;
    unwind(S, o.id, false);
  });
  add({"__cxa_begin_catch"}, [](State &S, const CallBase *, Args &a) {
    u64 id = C(S, a[0]);
    Occ &o = S.occs.at(id);
    Globals &g = eg(S);
    if (o.handlers < 0) o.handlers = -o.handlers + 1; else o.handlers++;
    g.uncaught--;
    if (g.caught != id) { o.next = g.caught; g.caught = id; }
    // adjusted pointer for a base-class handler
    RV p;
    p.s = adjustedPtr(S, o);
    long adj = 0;
    if (S.lpSel && !p.s.sym()) for (auto &t : typeIds) if (t.second == S.lpSel && t.first) { if (derives(o.ti, t.first, adj)) p.s = SV(p.s.c + adj, 64); }
    finishCall(S, p);
  });
  add({"__cxa_get_exception_ptr"}, [](State &S, const CallBase *, Args &a) { RV p; p.s = adjustedPtr(S, S.occs.at(C(S, a[0]))); finishCall(S, p); });
  add({"__cxa_end_catch"}, [](State &S, const CallBase *, Args &) {
    Globals &g = eg(S);
    u64 id = g.caught;
    finishVoid(S);
    if (!id) return;
    Occ &o = S.occs.at(id);
    if (o.handlers < 0) {
      if (++o.handlers == 0) g.caught = o.next;
      return;
    }
    if (--o.handlers == 0) {
      g.caught = o.next;
      u64 obj = o.obj;
      S.occs.erase(id);
      bool pushed;
      excRelease(S, obj, pushed);
    } else if (o.handlers < 0) terminateV(S, "__cxa_end_catch without handler");
  });
  add({"__cxa_rethrow"}, [](State &S, const CallBase *, Args &) {
    Globals &g = eg(S);
    if (!g.caught) terminateV(S, "rethrow without a current exception");
    Occ &o = S.occs.at(g.caught);
    g.uncaught++;
    o.handlers = -o.handlers;
    unwind(S, g.caught, false);
  });
  add({"_ZSt17current_exceptionv"}, [](State &S, const CallBase *, Args &a) {
    u64 p = C(S, a[0]);
    Globals &g = eg(S);
    u64 obj = 0;
    if (g.caught) { obj = S.occs.at(g.caught).obj; S.excs.at(obj).refs++; }
    raceAccess(S, p, 8, true);
    storeInt(S, p, SV(obj, 64), "exception_ptr");
    finishVoid(S);
  });
  add({"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"}, [](State &S, const CallBase *, Args &a) {
    raceAccess(S, C(S, a[0]), 8, false);
    u64 obj = C(S, RV{loadInt(S, C(S, a[0]), 64, "exception_ptr"), nullptr});
    if (!obj) violate(S, "terminate", "rethrow_exception of a null exception_ptr");
    auto it = S.excs.find(obj);
    if (it == S.excs.end() || !it->second.alive) violate(S, "memory", "rethrow_exception of a destroyed exception");
    it->second.refs++;
    Occ o;
    o.id = (S.nextHandle += 16);
    o.obj = obj;
    o.ti = it->second.ti;
    o.dependent = true;
    S.occs[o.id] = o;
    eg(S).uncaught++;
    unwind(S, o.id, false);
  });
  add({"_ZSt18uncaught_exceptionv"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv(eg(S).uncaught != 0, 1)); });
  add({"_ZSt19uncaught_exceptionsv"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv((u64)(int64_t)eg(S).uncaught, 32)); });
  add({"__cxa_current_exception_type"}, [](State &S, const CallBase *, Args &) { Globals &g = eg(S); finishCall(S, rv(g.caught ? S.occs.at(g.caught).ti : 0, 64)); });
  auto addref = [](State &S, u64 self) {
    raceAccess(S, self, 8, false);
    u64 obj = C(S, RV{loadInt(S, self, 64, "exception_ptr"), nullptr});
    if (obj) {
      auto it = S.excs.find(obj);
      if (it == S.excs.end() || !it->second.alive) violate(S, "memory", "exception_ptr refers to a destroyed exception");
      it->second.refs++;
    }
  };
  auto release = [](State &S, u64 self) {  // after finishCall
    u64 obj = C(S, RV{loadInt(S, self, 64, "exception_ptr"), nullptr});
    if (!obj) return;
    auto it = S.excs.find(obj);
    if (it == S.excs.end() || !it->second.alive) violate(S, "memory", "exception_ptr refers to a destroyed exception");
    raceAccess(S, self, 8, true);
    storeInt(S, self, SV(0, 64), "exception_ptr");
    bool pushed;
    excRelease(S, obj, pushed);
  };
  add({"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"}, [addref](State &S, const CallBase *, Args &a) { addref(S, C(S, a[0])); finishVoid(S); });
  add({"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", "_ZNSt15__exception_ptr13exception_ptrD1Ev", "_ZNSt15__exception_ptr13exception_ptrD2Ev"},
      [release](State &S, const CallBase *, Args &a) { u64 self = C(S, a[0]); finishVoid(S); release(S, self); });
  add({"_ZNSt15__exception_ptr13exception_ptrC1Ev", "_ZNSt15__exception_ptr13exception_ptrC2Ev"}, [](State &S, const CallBase *, Args &a) { raceAccess(S, C(S, a[0]), 8, true); storeInt(S, C(S, a[0]), SV(0, 64), "exception_ptr"); finishVoid(S); });
  add({"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", "_ZNSt15__exception_ptr13exception_ptrC2ERKS0_"}, [addref](State &S, const CallBase *, Args &a) {
    u64 d = C(S, a[0]), s = C(S, a[1]);
    copyMem(S, d, s, 8);
    addref(S, d);
    finishVoid(S);
  });
  add({"_ZNSt15__exception_ptr13exception_ptrC1EPv", "_ZNSt15__exception_ptr13exception_ptrC2EPv"}, [addref](State &S, const CallBase *, Args &a) {
    u64 d = C(S, a[0]);
    raceAccess(S, d, 8, true);
    storeInt(S, d, a[1].s, "exception_ptr");
    addref(S, d);
    finishVoid(S);
  });
  add({"_ZNSt15__exception_ptr13exception_ptraSERKS0_"}, [addref, release](State &S, const CallBase *, Args &a) {
    u64 d = C(S, a[0]), s = C(S, a[1]);
    addref(S, s);
    u64 nv = loadInt(S, s, 64, "exception_ptr").c;
    u64 old = loadInt(S, d, 64, "exception_ptr").c;
    raceAccess(S, d, 8, true);
    storeInt(S, d, SV(nv, 64), "exception_ptr");
    finishCall(S, rv(d, 64));
    if (old) { bool p; excRelease(S, old, p); }
  });
  add({"_ZNSt15__exception_ptr13exception_ptr4swapERS0_"}, [](State &S, const CallBase *, Args &a) {
    u64 d = C(S, a[0]), s = C(S, a[1]);
    raceAccess(S, d, 8, true);
    raceAccess(S, s, 8, true);
    SV x = loadInt(S, d, 64, ""), y = loadInt(S, s, 64, "");
    storeInt(S, d, y, "");
    storeInt(S, s, x, "");
    finishVoid(S);
  });
  // std::runtime_error and friends: { vptr, message }; the message string is not copied
  auto vtOf = [](const std::string &cls) -> u64 {
    GlobalVariable *g = M->getNamedGlobal("_ZTVSt" + cls);
    return g ? gvAddr[g] + 16 : 0;
  };
  for (std::string cls : {"13runtime_error", "11logic_error", "12out_of_range", "16invalid_argument", "12length_error", "12domain_error",
                          "11range_error", "14overflow_error", "15underflow_error"}) {
    for (const char *c : {"C1", "C2"}) {
      add({strdup(("_ZNSt" + cls + c + "EPKc").c_str())}, [vtOf, cls](State &S, const CallBase *, Args &a) {
        u64 d = C(S, a[0]);
        storeInt(S, d, SV(vtOf(cls), 64), "std exception");
        storeInt(S, d + 8, a[1].s, "std exception");
        finishVoid(S);
      });
      for (const char *r : {"ERKS_", "EOS_"})
        add({strdup(("_ZNSt" + cls + c + r).c_str())}, [vtOf, cls](State &S, const CallBase *, Args &a) {
          u64 d = C(S, a[0]);
          copyMem(S, d, C(S, a[1]), 16);
          storeInt(S, d, SV(vtOf(cls), 64), "std exception");
          finishVoid(S);
        });
    }
    for (const char *e : {"aSERKS_", "aSEOS_"})
      add({strdup(("_ZNSt" + cls + e).c_str())}, [](State &S, const CallBase *, Args &a) { copyMem(S, C(S, a[0]) + 8, C(S, a[1]) + 8, 8); finishCall(S, a[0]); });
    for (const char *dd : {"D0", "D1", "D2"}) add({strdup(("_ZNSt" + cls + dd + "Ev").c_str())}, noop);
  }
  for (const char *n : {"_ZNKSt13runtime_error4whatEv", "_ZNKSt11logic_error4whatEv"})
    add({n}, [](State &S, const CallBase *, Args &a) { RV r; r.s = loadInt(S, C(S, a[0]) + 8, 64, "what()"); finishCall(S, r); });
  for (std::string cls : {"9exception", "9bad_alloc", "8bad_cast", "20bad_array_new_length", "10bad_typeid", "13bad_exception", "17bad_function_call"}) {
    add({strdup(("_ZNKSt" + cls + "4whatEv").c_str())}, [](State &S, const CallBase *, Args &) { finishCall(S, rv(0, 64)); });
    for (const char *dd : {"D0", "D1", "D2"}) add({strdup(("_ZNSt" + cls + dd + "Ev").c_str())}, noop);
  }
  // threads: one runs at a time, so locks are free
  add({"pthread_self"}, [](State &S, const CallBase *, Args &) { finishCall(S, rv(0x7000 + 64 * S.thread, 64)); });
  add({"pthread_equal"}, [](State &S, const CallBase *, Args &a) { finishCall(S, rv(C(S, a[0]) == C(S, a[1]), 32)); });
  // a lock that is held can only be held by a suspended coroutine or an outer call of the same or a waiting thread
  auto lock = [](bool tryit) { return [tryit](State &S, const CallBase *, Args &a) {   // glibc layout: lock, count, owner, users, kind
    u64 p = C(S, a[0], "pointer");
    u64 held = C(S, RV{loadInt(S, p, 32, "mutex"), nullptr}), kind = C(S, RV{loadInt(S, p + 16, 32, "mutex"), nullptr}) & 3;
    u64 owner = held ? C(S, RV{loadInt(S, p + 8, 32, "mutex"), nullptr}) : 0;
    if (held && !(kind == 1 && owner == (u64)S.thread + 1)) {
      if (tryit) { finishCall(S, rv(16, 32)); return; }
      violate(S, "hang", "deadlock: the mutex is already locked");
    }
    storeInt(S, p, SV(held + 1, 32), "mutex");
    storeInt(S, p + 8, SV((u64)S.thread + 1, 32), "mutex");
    raceSync(S, p, true, false);
    finishCall(S, rv(0, 32));
  }; };
  add({"pthread_mutex_lock"}, lock(false));
  add({"pthread_mutex_trylock"}, lock(true));
  add({"pthread_mutex_unlock"}, [](State &S, const CallBase *, Args &a) {
    u64 p = C(S, a[0], "pointer"), held = C(S, RV{loadInt(S, p, 32, "mutex"), nullptr});
    u64 kind = C(S, RV{loadInt(S, p + 16, 32, "mutex"), nullptr}) & 3;
    if (held && kind != 0 && C(S, RV{loadInt(S, p + 8, 32, "mutex"), nullptr}) != (u64)S.thread + 1) { finishCall(S, rv(1, 32)); return; }   // EPERM: not the owner
    if (held) storeInt(S, p, SV(held - 1, 32), "mutex");
    raceSync(S, p, false, true);
    finishCall(S, rv(0, 32));
  });
  add({"pthread_mutex_init"}, [](State &S, const CallBase *, Args &a) { u64 p = C(S, a[0], "pointer"); for (int k = 0; k < 5; k++) storeInt(S, p + 4 * k, SV(0, 32), "mutex"); finishCall(S, rv(0, 32)); });
  for (const char *n : {"pthread_mutex_destroy"})
    add({n}, [](State &S, const CallBase *, Args &) { finishCall(S, rv(0, 32)); });
  add({"__dynamic_cast"}, [](State &S, const CallBase *, Args &a) {
    u64 sub = C(S, a[0], "pointer"), dst = C(S, a[2]);
    u64 vp = C(S, RV{loadInt(S, sub, 64, "vtable pointer"), nullptr}, "vtable pointer");
    long top = (long)C(S, RV{loadInt(S, vp - 16, 64, "vtable"), nullptr});
    u64 ti = C(S, RV{loadInt(S, vp - 8, 64, "vtable"), nullptr});
    long adj = 0;
    bool ok = derives(ti, dst, adj);
    finishCall(S, rv(ok ? sub + top + adj : 0, 64));
  });
  for (const char *n : {"_ZSt17__throw_bad_allocv", "_ZSt25__throw_bad_function_callv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc", "_ZSt26__throw_bad_variant_accessPKc", "_ZSt27__throw_bad_optional_accessv"})
    builtins[n] = [](State &S, const CallBase *cb, Args &) { unsup(cb->getCalledFunction()->getName().str()); };
}

// ------------------------------------------------------------------ intrinsics and calls
static void doCall(State &S, Frame &f, DInst &d) {
  auto *cb = cast<CallBase>(d.I);
  unsigned na = cb->arg_size();
  const Function *F = cb->getCalledFunction();
  if (!F) {
    const Value *cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
    F = dyn_cast<Function>(cv);
  }
  if (cb->isInlineAsm()) unsup("inline assembly");
  Args a(na);
  if (F && F->isIntrinsic()) {
    for (unsigned i = 0; i < na; i++) if (!cb->getArgOperand(i)->getType()->isMetadataTy()) a[i] = opv(f, d.ops[i]);
    RV r;
    switch (F->getIntrinsicID()) {
      case Intrinsic::lifetime_start: {
        u64 p = a[1].s.c;
        auto it = S.mem.find(p);
        if (it != S.mem.end() && it->second->kind == O_STACK) {
          MemObj *o = wr(S, p);
          o->alive = true;
          o->pages.reset((o->size + PG - 1) / PG);
        }
        f.ip++;
        return;
      }
      case Intrinsic::lifetime_end: {
        u64 p = a[1].s.c;
        auto it = S.mem.find(p);
        if (it != S.mem.end() && it->second->kind == O_STACK && it->second->alive) killObj(S, p);
        f.ip++;
        return;
      }
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch:
      case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
        f.ip++;
        return;
      case Intrinsic::invariant_start: case Intrinsic::stacksave: r = rv(0, 64); break;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        u64 dd = C(S, a[0], "pointer"), s = C(S, a[1], "pointer"), n = C(S, a[2], "size");
        copyMem(S, dd, s, n);
        f.ip++;
        return;
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 dd = C(S, a[0], "pointer"), n = C(S, a[2], "size");
        if (n) { access(S, dd, n, true, "memset"); raceAccess(S, dd, n, true); MemObj *o = wr(S, findObj(S, dd)->base); for (u64 k = 0; k < n; k++) writeByte(o, dd + k, a[1].s); }
        f.ip++;
        return;
      }
      case Intrinsic::eh_typeid_for: r = rv(typeId(a[0].s.c), 32); break;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
      case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: r = a[0]; break;
      case Intrinsic::is_constant: r = rv(0, 1); break;
      case Intrinsic::objectsize: r = rv(~0ull, bitsOf(cb->getType())); break;
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violate(S, "terminate", "trap instruction executed");
      case Intrinsic::threadlocal_address: {
        auto *g = cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts());
        u64 base = gvAddr.at(g);
        if (S.thread != 0) {
          auto key = std::make_pair(S.thread, base);
          auto it = S.tls.find(key);
          if (it == S.tls.end()) {
            u64 n = DL->getTypeAllocSize(g->getValueType());
            u64 al = 64;
            u64 b = alignUp(S.nextHeap, 4096) + al;
            S.nextHeap = b + n + 256;
            auto o = mkObj(b, n, O_GLOBAL);
            o->zeroDefault = true;
            S.mem[b] = o;
            if (g->hasInitializer()) {
              RV v = constVal(g->getInitializer());
              storeT(S, b, g->getValueType(), v, "tls");
            }
            S.tls[key] = b;
            base = b;
          } else base = it->second;
        }
        r = rv(base, 64);
        break;
      }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::abs: {
        u64 v = C(S, a[0], "value");
        u32 w = a[0].s.w;
        u64 o = 0;
        switch (F->getIntrinsicID()) {
          case Intrinsic::ctpop: o = __builtin_popcountll(v); break;
          case Intrinsic::ctlz: o = v ? __builtin_clzll(v) - (64 - w) : w; break;
          case Intrinsic::cttz: o = v ? __builtin_ctzll(v) : w; break;
          case Intrinsic::bswap: for (u32 k = 0; k < w / 8; k++) o |= ((v >> (8 * k)) & 0xff) << (w - 8 - 8 * k); break;
          default: o = (u64)std::llabs(sext(v, w)); break;
        }
        r = rv(o, w);
        break;
      }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        CmpInst::Predicate p = F->getIntrinsicID() == Intrinsic::umin ? CmpInst::ICMP_ULT : F->getIntrinsicID() == Intrinsic::umax ? CmpInst::ICMP_UGT : F->getIntrinsicID() == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
        SV c = cmp(p, a[0].s, a[1].s);
        r.s = c.sym() ? mkSV(Z3_mk_ite(Z, boolOf(c), toE(a[0].s), toE(a[1].s)), a[0].s.w) : (c.c ? a[0].s : a[1].s);
        break;
      }
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        u32 w = a[0].s.w;
        bool sg = false;
        unsigned op = 0;
        switch (F->getIntrinsicID()) {
          case Intrinsic::sadd_with_overflow: sg = true; [[fallthrough]];
          case Intrinsic::uadd_with_overflow: op = Instruction::Add; break;
          case Intrinsic::ssub_with_overflow: sg = true; [[fallthrough]];
          case Intrinsic::usub_with_overflow: op = Instruction::Sub; break;
          case Intrinsic::smul_with_overflow: sg = true; [[fallthrough]];
          default: op = Instruction::Mul;
        }
        unsigned ext = sg ? Instruction::SExt : Instruction::ZExt;
        SV x = castTo(ext, a[0].s, 2 * w), y = castTo(ext, a[1].s, 2 * w);
        SV lo = bin(op, a[0].s, a[1].s);
        SV ov;
        if (!x.sym() && !y.sym() && 2 * w > 64) {  // concrete 64-bit: use __int128
          __int128 p = sg ? (__int128)(int64_t)a[0].s.c : (__int128)a[0].s.c, q = sg ? (__int128)(int64_t)a[1].s.c : (__int128)a[1].s.c;
          unsigned __int128 up = a[0].s.c, uq = a[1].s.c;
          bool o;
          if (sg) { __int128 z = op == Instruction::Add ? p + q : op == Instruction::Sub ? p - q : p * q; o = z != (__int128)(int64_t)lo.c; }
          else { o = op == Instruction::Sub ? up < uq : (op == Instruction::Add ? up + uq : up * uq) != (unsigned __int128)lo.c; }
          ov = SV(o, 1);
        } else {
          SV full = bin(op, x, y);
          ov = cmp(CmpInst::ICMP_NE, full, castTo(ext, lo, 2 * w));
        }
        r.agg = std::make_shared<std::vector<SV>>();
        r.agg->push_back(lo);
        r.agg->push_back(ov);
        break;
      }
      default: unsup("intrinsic " + F->getName().str());
    }
    if (d.res >= 0) f.regs[d.res] = r;
    if (auto *inv = dyn_cast<InvokeInst>(d.I)) enterBlock(S, f, f.f->bbIdx[inv->getNormalDest()]);
    else f.ip++;
    return;
  }
  for (unsigned i = 0; i < na; i++) a[i] = opv(f, d.ops[i]);
  if (!F) {
    int calleeOp = d.ops[d.ops.size() - 1];
    u64 t = C(S, opv(f, calleeOp), "function pointer");
    auto it = addrFn.find(t);
    if (it == addrFn.end()) violate(S, "memory", "call through an invalid function pointer");
    F = it->second;
  }
  for (unsigned i = 0; i < na; i++)
    if (cb->isByValArgument(i)) a[i].s = SV(C(S, a[i], "pointer"), 64);
  auto bi = builtins.find(F->getName().str());
  if (!F->isDeclaration() && (bi == builtins.end() || F->getName().starts_with("_ZSt"))) {
    pushFrame(S, F, a);
    return;
  }
  if (bi == builtins.end()) unsup("external function " + F->getName().str());
  bi->second(S, cb, a);
}

static void endPath(State &S) {
  S.done = true;
  nPaths++;
  nStates++;
  needModel(S);
  // reservoir by spreading: keep paths 0,1,2,4,8,... and a rolling window
  if (samples.size() < seedSamples || (nPaths & (nPaths - 1)) == 0 || nPaths % 97 == 0) {
    PathSample p;
    evalInputs(S, S.model.get(), p.in);
    for (auto &o : S.obs) p.obs.push_back(o.sym() ? modelVal(*S.model, o.e) : o.c);
    p.obs.push_back(S.checks);   // how many assertions the path evaluated
    p.cov = S.covers;
    if (samples.size() < 4 * seedSamples) samples.push_back(p);
    else samples[seedSamples + nPaths % (3 * seedSamples)] = p;
  }
}

static void doRet(State &S, Frame &f, DInst &d) {
  RV r;
  if (!d.ops.empty()) r = opv(f, d.ops[0]);
  OnRet on = f.onret;
  u64 data = f.retdata;
  killAllocas(S, f);
  auto &fr = S.ctxs[S.cur].frames;
  fr.pop_back();
  switch (on) {
    case R_HARNESS_DONE: endPath(S); return;
    case R_GCTOR: return;
    case R_FREE_EXC: S.excs.at(data).alive = false; killObj(S, data); return;
    case R_HOOK: return;
    case R_THREAD: S.thread = (int)data; return;
    case R_STEP: S.ctxs[S.cur].st = C_DEAD; S.thread = 0; S.cur = S.tcaller; finishCall(S, rv(1, 32)); return;
    default: break;
  }
  if (fr.empty()) violate(S, "context", "the entry function of a context returned");
  finishCall(S, r);
}

static void branch(State &S, Frame &f, const SV &c, int bt, int bf) {
  if (!c.sym()) { enterBlock(S, f, c.c ? bt : bf); return; }
  Z3_ast t = boolOf(c), n = mkNot(t);
  std::shared_ptr<z3::model> mt, mf;
  bool ft = feasible(S, t, &mt), ff = feasible(S, n, &mf);
  if (ft && ff) {
    State *T = fork(S);
    nStates++;
    addPC(*T, n, mf);
    enterBlock(*T, T->ctxs[T->cur].frames.back(), bf);
    addPC(S, t, mt);
    enterBlock(S, f, bt);
  } else if (ft) enterBlock(S, f, bt);
  else if (ff) enterBlock(S, f, bf);
  else throw KillPath();
}

static void checkAlign(State &S, u64 a, Align al, const char *what) {
  if (a % al.value()) violate(S, "memory", std::string("misaligned ") + what);
}

static void step(State &S) {
  Frame &f = S.ctxs[S.cur].frames.back();
  DInst &d = f.f->blocks[f.bb].insts[f.ip];
  d.visited = true;
  nInsts++;
  if (++S.steps > stepLimit) violate(S, "hang", "no termination within the step bound");
  const Instruction *I = d.I;
  switch (d.op) {
    case Instruction::Ret: doRet(S, f, d); return;
    case Instruction::Br: {
      auto *b = cast<BranchInst>(I);
      if (b->isUnconditional()) enterBlock(S, f, f.f->bbIdx[b->getSuccessor(0)]);
      else branch(S, f, opv(f, d.ops[0]).s, f.f->bbIdx[b->getSuccessor(0)], f.f->bbIdx[b->getSuccessor(1)]);
      return;
    }
    case Instruction::Switch: {
      auto *sw = cast<SwitchInst>(I);
      SV v = opv(f, d.ops[0]).s;
      if (!v.sym()) {
        const BasicBlock *dst = sw->getDefaultDest();
        for (auto &c : sw->cases()) if (c.getCaseValue()->getZExtValue() == v.c) { dst = c.getCaseSuccessor(); break; }
        enterBlock(S, f, f.f->bbIdx[dst]);
        return;
      }
      struct Opt { Z3_ast c; int bb; std::shared_ptr<z3::model> m; };
      std::vector<Opt> opts;
      Z3_ast none = nullptr;
      for (auto &c : sw->cases()) {
        Z3_ast eq = keep(Z3_mk_eq(Z, v.e, bvconst(c.getCaseValue()->getZExtValue(), v.w)));
        Opt o{eq, f.f->bbIdx[c.getCaseSuccessor()], nullptr};
        Z3_ast ne = mkNot(eq);
        if (none) { Z3_ast as[2] = {none, ne}; none = keep(Z3_mk_and(Z, 2, as)); } else none = ne;
        if (feasible(S, eq, &o.m)) opts.push_back(o);
      }
      Opt o{none, f.f->bbIdx[sw->getDefaultDest()], nullptr};
      if (!none || feasible(S, none, &o.m)) opts.push_back(o);
      if (opts.empty()) throw KillPath();
      for (size_t i = opts.size(); i-- > 1;) {
        State *T = fork(S);
        nStates++;
        addPC(*T, opts[i].c, opts[i].m);
        enterBlock(*T, T->ctxs[T->cur].frames.back(), opts[i].bb);
      }
      addPC(S, opts[0].c, opts[0].m);
      enterBlock(S, f, opts[0].bb);
      return;
    }
    case Instruction::Invoke: case Instruction::Call: doCall(S, f, d); return;
    case Instruction::Resume: {
      const RV &v = opv(f, d.ops[0]);
      unwind(S, (*v.agg)[0].c, true);
      return;
    }
    case Instruction::Unreachable: violate(S, "unreachable", "execution reached an unreachable point (undefined behaviour)");
    case Instruction::LandingPad: {
      RV r;
      r.agg = std::make_shared<std::vector<SV>>();
      r.agg->push_back(SV(S.lpId, 64));
      r.agg->push_back(SV(S.lpSel, 32));
      f.regs[d.res] = r;
      f.ip++;
      return;
    }
    case Instruction::Alloca: {
      auto *al = cast<AllocaInst>(I);
      u64 n = DL->getTypeAllocSize(al->getAllocatedType());
      if (al->isArrayAllocation()) n *= C(S, opv(f, d.ops[0]), "alloca size");
      u64 b = stackAlloc(S, n, al->getAlign().value());
      f.allocas.push_back(b);
      f.regs[d.res] = rv(b, 64);
      f.ip++;
      return;
    }
    case Instruction::Load: {
      auto *l = cast<LoadInst>(I);
      u64 a = C(S, opv(f, d.ops[0]), "address");
      RV v = loadT(S, a, l->getType(), "load");
      if (S.race) { if (l->isAtomic()) raceAtomic(S, a, l->getOrdering()); else raceAccess(S, a, DL->getTypeStoreSize(l->getType()), false); }
      checkAlign(S, a, l->getAlign(), "load");
      f.regs[d.res] = v;
      f.ip++;
      return;
    }
    case Instruction::Store: {
      auto *st = cast<StoreInst>(I);
      u64 a = C(S, opv(f, d.ops[1]), "address");
      Type *t = st->getValueOperand()->getType();
      access(S, a, DL->getTypeStoreSize(t), true, "store");
      if (S.race) { if (st->isAtomic()) raceAtomic(S, a, st->getOrdering()); else raceAccess(S, a, DL->getTypeStoreSize(t), true); }
      checkAlign(S, a, st->getAlign(), "store");
      storeT(S, a, t, opv(f, d.ops[0]), "store");
      f.ip++;
      return;
    }
    case Instruction::GetElementPtr: {
      auto *g = cast<GetElementPtrInst>(I);
      SV p = opv(f, d.ops[0]).s;
      u64 off = 0;
      unsigned k = 1;
      for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++k) {
        const SV &ix = opv(f, d.ops[k]).s;
        if (StructType *st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(ix.c);
        else {
          u64 es = DL->getTypeAllocSize(gi.getIndexedType());
          if (!ix.sym()) off += (u64)sext(ix.c, ix.w) * es;
          else p = bin(Instruction::Add, p, bin(Instruction::Mul, castTo(Instruction::SExt, ix, 64), SV(es, 64)));
        }
      }
      RV r;
      r.s = off ? bin(Instruction::Add, p, SV(off, 64)) : p;
      f.regs[d.res] = r;
      f.ip++;
      return;
    }
    case Instruction::ICmp: { RV r; SV x = opv(f, d.ops[0]).s, y = opv(f, d.ops[1]).s; r.s = cmp(cast<ICmpInst>(I)->getPredicate(), x, y); if ((x.sym() || y.sym()) && !r.s.sym()) nFoldedCmp++; f.regs[d.res] = r; f.ip++; return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: {
      SV a = opv(f, d.ops[0]).s, b = opv(f, d.ops[1]).s;
      if (d.op == Instruction::UDiv || d.op == Instruction::SDiv || d.op == Instruction::URem || d.op == Instruction::SRem) {
        SV z = cmp(CmpInst::ICMP_EQ, b, SV(0, b.w));
        if (!z.sym()) { if (z.c) violate(S, "arith", "division by zero"); }
        else { std::shared_ptr<z3::model> m; if (feasible(S, boolOf(z), &m)) violate(S, "arith", "division by zero", m); }
      }
      RV r; r.s = bin(d.op, a, b);
      f.regs[d.res] = r;
      f.ip++;
      return;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::BitCast: case Instruction::AddrSpaceCast: { RV r; r.s = castTo(d.op, opv(f, d.ops[0]).s, bitsOf(I->getType())); f.regs[d.res] = r; f.ip++; return; }
    case Instruction::Freeze: f.regs[d.res] = RV(opv(f, d.ops[0])); f.ip++; return;
    case Instruction::Select: {
      SV c = opv(f, d.ops[0]).s;
      if (!c.sym()) { RV r = opv(f, d.ops[c.c ? 1 : 2]); f.regs[d.res] = r; f.ip++; return; }
      RV x = opv(f, d.ops[1]), y = opv(f, d.ops[2]);
      if (x.agg) { u64 cc = concretize(S, c, "select"); f.regs[d.res] = cc ? x : y; f.ip++; return; }
      RV r;
      r.s = mkSV(keep(Z3_mk_ite(Z, boolOf(c), toE(x.s), toE(y.s))), x.s.w);
      f.regs[d.res] = r;
      f.ip++;
      return;
    }
    case Instruction::ExtractValue: {
      auto *e = cast<ExtractValueInst>(I);
      Type *t;
      unsigned k = leafIndex(e->getAggregateOperand()->getType(), e->getIndices(), &t);
      const RV &v = opv(f, d.ops[0]);
      RV r;
      if (!isAgg(t)) r.s = (*v.agg)[k];
      else { r.agg = std::make_shared<std::vector<SV>>(); for (size_t i = 0; i < leaves(t).size(); i++) r.agg->push_back((*v.agg)[k + i]); }
      f.regs[d.res] = r;
      f.ip++;
      return;
    }
    case Instruction::InsertValue: {
      auto *e = cast<InsertValueInst>(I);
      Type *t;
      unsigned k = leafIndex(e->getAggregateOperand()->getType(), e->getIndices(), &t);
      RV v = opv(f, d.ops[0]);
      v.agg = std::make_shared<std::vector<SV>>(*v.agg);
      const RV &x = opv(f, d.ops[1]);
      if (!isAgg(t)) (*v.agg)[k] = x.s;
      else for (size_t i = 0; i < leaves(t).size(); i++) (*v.agg)[k + i] = (*x.agg)[i];
      f.regs[d.res] = v;
      f.ip++;
      return;
    }
    case Instruction::AtomicRMW: {
      auto *x = cast<AtomicRMWInst>(I);
      u64 a = C(S, opv(f, d.ops[0]), "address");
      SV v = opv(f, d.ops[1]).s, old = loadInt(S, a, v.w, "atomic"), nv;
      switch (x->getOperation()) {
        case AtomicRMWInst::Add: nv = bin(Instruction::Add, old, v); break;
        case AtomicRMWInst::Sub: nv = bin(Instruction::Sub, old, v); break;
        case AtomicRMWInst::And: nv = bin(Instruction::And, old, v); break;
        case AtomicRMWInst::Or: nv = bin(Instruction::Or, old, v); break;
        case AtomicRMWInst::Xor: nv = bin(Instruction::Xor, old, v); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        default: unsup("atomicrmw");
      }
      storeInt(S, a, nv, "atomic");
      if (S.race) raceAtomic(S, a, x->getOrdering());
      RV r; r.s = old;
      f.regs[d.res] = r;
      f.ip++;
      return;
    }
    case Instruction::AtomicCmpXchg: {
      u64 a = C(S, opv(f, d.ops[0]), "address");
      SV e = opv(f, d.ops[1]).s, n = opv(f, d.ops[2]).s, old = loadInt(S, a, e.w, "atomic");
      SV eq = cmp(CmpInst::ICMP_EQ, old, e);
      u64 c = concretize(S, eq, "cmpxchg");
      if (c) storeInt(S, a, n, "atomic");
      if (S.race) raceAtomic(S, a, c ? cast<AtomicCmpXchgInst>(I)->getSuccessOrdering() : cast<AtomicCmpXchgInst>(I)->getFailureOrdering());
      RV r;
      r.agg = std::make_shared<std::vector<SV>>();
      r.agg->push_back(old);
      r.agg->push_back(SV(c, 1));
      f.regs[d.res] = r;
      f.ip++;
      return;
    }
    case Instruction::Fence: f.ip++; return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      double x = asD(opv(f, d.ops[0]).s), y = asD(opv(f, d.ops[1]).s), z = 0;
      switch (d.op) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; default: z = x / y; }
      RV r; r.s = fromD(z, bitsOf(I->getType())); f.regs[d.res] = r; f.ip++; return;
    }
    case Instruction::FNeg: { RV r; r.s = fromD(-asD(opv(f, d.ops[0]).s), bitsOf(I->getType())); f.regs[d.res] = r; f.ip++; return; }
    case Instruction::FCmp: {
      double x = asD(opv(f, d.ops[0]).s), y = asD(opv(f, d.ops[1]).s);
      bool un = std::isnan(x) || std::isnan(y), r = false;
      switch (cast<FCmpInst>(I)->getPredicate()) {
        case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
        case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_ORD: r = !un; break;
        default: unsup("fcmp");
      }
      f.regs[d.res] = rv(r, 1);
      f.ip++;
      return;
    }
    case Instruction::FPExt: case Instruction::FPTrunc: { RV r; r.s = fromD(asD(opv(f, d.ops[0]).s), bitsOf(I->getType())); f.regs[d.res] = r; f.ip++; return; }
    case Instruction::SIToFP: { SV v = opv(f, d.ops[0]).s; if (v.sym()) unsup("symbolic sitofp"); RV r; r.s = fromD((double)sext(v.c, v.w), bitsOf(I->getType())); f.regs[d.res] = r; f.ip++; return; }
    case Instruction::UIToFP: { SV v = opv(f, d.ops[0]).s; if (v.sym()) unsup("symbolic uitofp"); RV r; r.s = fromD((double)v.c, bitsOf(I->getType())); f.regs[d.res] = r; f.ip++; return; }
    case Instruction::FPToSI: case Instruction::FPToUI: { f.regs[d.res] = rv((u64)(int64_t)asD(opv(f, d.ops[0]).s), bitsOf(I->getType())); f.ip++; return; }
    default: break;
  }
  unsup(std::string("instruction ") + I->getOpcodeName());
}

// ------------------------------------------------------------------ driver
static void libVtables() {   // vtables that live in libstdc++: offset, type, D1, D0, what
  LLVMContext &cx = M->getContext();
  Type *ptr = PointerType::getUnqual(cx);
  ArrayType *at = ArrayType::get(ptr, 5);
  std::vector<Type *> el = {at};
  StructType *st = StructType::get(cx, el);
  FunctionType *ft = FunctionType::get(Type::getVoidTy(cx), {ptr}, false);
  for (std::string cls : {"9exception", "9bad_alloc", "8bad_cast", "13runtime_error", "11logic_error", "12out_of_range", "16invalid_argument",
                          "12length_error", "12domain_error", "11range_error", "14overflow_error", "15underflow_error", "20bad_array_new_length",
                          "10bad_typeid", "13bad_exception", "17bad_function_call"}) {
    GlobalVariable *g = M->getNamedGlobal("_ZTVSt" + cls);
    if (g && g->hasInitializer()) continue;
    bool used = g;
    for (auto &F : *M) used |= F.getName().starts_with("_ZNSt" + cls + "C");
    if (!used) continue;
    if (g && g->getValueType() != st) continue;
    if (!g) g = new GlobalVariable(*M, st, true, GlobalValue::ExternalLinkage, nullptr, "_ZTVSt" + cls);
    GlobalVariable *ti = M->getNamedGlobal("_ZTISt" + cls);
    auto fn = [&](const std::string &n) { return cast<Constant>(M->getOrInsertFunction(n, ft).getCallee()); };
    bool le = cls == "11logic_error" || cls == "12out_of_range" || cls == "16invalid_argument" || cls == "12length_error" || cls == "12domain_error";
    bool re = cls == "13runtime_error" || cls == "11range_error" || cls == "14overflow_error" || cls == "15underflow_error";
    std::string what = le ? "_ZNKSt11logic_error4whatEv" : re ? "_ZNKSt13runtime_error4whatEv" : "_ZNKSt" + cls + "4whatEv";
    Constant *nul = ConstantPointerNull::get(cast<PointerType>(ptr));
    std::vector<Constant *> v = {nul, ti ? (Constant *)ti : nul, fn("_ZNSt" + cls + "D1Ev"), fn("_ZNSt" + cls + "D0Ev"), fn(what)};
    g->setInitializer(ConstantStruct::get(st, {ConstantArray::get(at, v)}));
  }
}
static void initGlobals(State &S) {
  libVtables();
  u64 fa = 0x100000;
  for (auto &F : *M) { fnAddr[&F] = fa; addrFn[fa] = &F; fa += 16; }
  u64 ga = 0x10000000;
  std::vector<GlobalVariable *> gs;
  for (auto &g : M->globals()) {
    u64 al = std::max<u64>(16, g.getAlign().valueOrOne().value());
    u64 n = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0;
    if (!g.hasInitializer() && n < 256) n = 256;
    ga = alignUp(ga, al);
    gvAddr[&g] = ga;
    auto o = mkObj(ga, n, O_GLOBAL);
    o->zeroDefault = true;
    S.mem[ga] = o;
    ga += n + 64;
    gs.push_back(&g);
  }
  for (auto *g : gs) {
    if (!g->hasInitializer()) {
      if (g->getName() == "__libc_single_threaded") storeInt(S, gvAddr[g], SV(1, 8), "init");
      continue;
    }
    std::function<void(u64, const Constant *)> put = [&](u64 a, const Constant *c) {
      Type *t = c->getType();
      if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
      if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = DL->getTypeAllocSize(cds->getElementType());
        for (unsigned i = 0; i < cds->getNumElements(); i++) put(a + i * es, cds->getElementAsConstant(i));
        return;
      }
      if (auto *st = dyn_cast<StructType>(t)) {
        const StructLayout *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) put(a + sl->getElementOffset(i), cast<Constant>(c->getOperand(i)));
        return;
      }
      if (auto *at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++) put(a + i * es, cast<Constant>(c->getOperand(i)));
        return;
      }
      storeInt(S, a, constVal(c).s, "init");
    };
    put(gvAddr[g], g->getInitializer());
    if (g->isConstant()) S.mem[gvAddr[g]]->kind = O_CONST;
  }
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static void runState(State &S) {
  for (;;) {
    try {
      while (!S.done) step(S);
      return;
    } catch (Reexec &) {
    }
  }
}
int main(int argc, char **argv) {
  t0 = std::chrono::steady_clock::now();
  std::string file, out = "/dev/stdout", entry = "harness";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char *k) -> const char * { size_t n = strlen(k); return a.compare(0, n, k) == 0 ? a.c_str() + n : nullptr; };
    if (auto v = val("--out=")) out = v;
    else if (auto v = val("--entry=")) entry = v;
    else if (auto v = val("--steps=")) stepLimit = atoll(v);
    else if (auto v = val("--time=")) timeLimit = atof(v);
    else if (auto v = val("--repo=")) repoPrefix = v;
    else if (auto v = val("--samples=")) seedSamples = atoll(v);
    else if (auto v = val("--max-paths=")) maxPaths = atoll(v);
    else if (auto v = val("--dump-smt=")) dumpDir = v;
    else if (auto v = val("--dump-every=")) dumpEvery = std::max(1ull, (unsigned long long)atoll(v));
    else if (auto v = val("--tape=")) { useTape = true; std::stringstream ss(v); std::string t; while (std::getline(ss, t, ',')) fixedTape.push_back(strtoull(t.c_str(), 0, 0)); }
    else file = a;
  }
  SMDiagnostic err;
  M = parseIRFile(file, err, LC);
  if (!M) { err.print("cosym", errs()); return 2; }
  DL = &M->getDataLayout();
  Z3_set_error_handler(Z, nullptr);
  Sol.reset(new z3::solver(Z, "QF_BV"));
  std::unique_ptr<State> S0(new State);
  S0->nextHeap = 0x2000000000ull;
  S0->nextStack = 0x4000000000ull;
  S0->nextExc = 0x6000000000ull;
  S0->nextHandle = 0x7000000000ull;
  try {
    initGlobals(*S0);
    initTypeInfo();
    setupBuiltins();
    S0->ctxs.emplace_back();
    std::vector<const Function *> ctors;
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
      if (auto *ca = dyn_cast_or_null<ConstantArray>(gc->getInitializer()))
        for (auto &o : ca->operands()) ctors.push_back(cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts()));
    for (auto *c : ctors) {
      pushFrame(*S0, c, {}, R_GCTOR);
      while (!S0->ctxs[0].frames.empty()) step(*S0);
    }
    S0->heapLive = S0->heapBig = 0;
    Function *E = M->getFunction(entry);
    if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    pushFrame(*S0, E, {}, R_HARNESS_DONE);
    work.push_back(std::move(S0));
  } catch (Unsupported &u) { incomplete = u.why; }
  catch (KillPath &) { incomplete = "initialisation failed"; }
  size_t maxWork = 0;
  std::set<std::string> incs;
  while (!work.empty()) {
    std::unique_ptr<State> S = std::move(work.back());
    work.pop_back();
    maxWork = std::max(maxWork, work.size());
    try { runState(*S); }
    catch (KillPath &) {}
    catch (Unsupported &u) {
      std::string w = u.why;
      try { auto b = backtrace(*S); for (size_t i = 0; i < b.size() && i < 3; i++) w += " <- " + b[i]; } catch (...) {}
      if (incs.size() < 5) incs.insert(w);
    } catch (std::out_of_range &) { incs.insert("internal: missing exception record"); }
    catch (z3::exception &e) { incs.insert(std::string("z3: ") + e.msg()); }
    if (now() > timeLimit) { incs.insert("time limit"); break; }
    if (nPaths >= maxPaths) { incs.insert("path limit"); break; }
    if (viols.size() >= 40) { break; }
  }
  for (auto &s : incs) { if (!incomplete.empty()) incomplete += "; "; incomplete += s; }
  std::ofstream o(out);
  o << "{\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"states\":" << nStates << ",\"instructions\":" << nInsts << ",\"switches\":" << nSwitches
    << ",\"queries\":" << nQueries << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"solver_s\":" << solverTime << ",\"wall_s\":" << now()
    << ",\"checks\":" << nChecks << ",\"symbolic_checks\":" << nSymChecks << ",\"assume_killed\":" << nAssumeKilled << ",\"folded_comparisons\":" << nFoldedCmp << ",\"check_queries\":" << nCheckQueries
    << ",\"pending\":" << work.size() << ",\"incomplete\":" << jstr(incomplete);
  o << ",\n\"covers\":{";
  bool first = true;
  for (auto &c : covers) { o << (first ? "" : ",") << jstr(c.first) << ":" << c.second; first = false; }
  o << "},\n\"violations\":[";
  first = true;
  auto inp = [&](std::vector<std::pair<std::string, u64>> &in) {
    o << "[";
    bool f2 = true;
    for (auto &i : in) { o << (f2 ? "" : ",") << "[" << jstr(i.first) << "," << i.second << "]"; f2 = false; }
    o << "]";
  };
  for (auto &v : viols) {
    o << (first ? "" : ",\n") << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"bt\":[";
    bool f2 = true;
    for (auto &b : v.bt) { o << (f2 ? "" : ",") << jstr(b); f2 = false; }
    o << "],\"inputs\":";
    inp(v.inputs);
    o << "}";
    first = false;
  }
  o << "],\n\"violation_counts\":{";
  first = true;
  for (auto &c : violCount) { o << (first ? "" : ",") << jstr(c.first) << ":" << c.second; first = false; }
  o << "},\n\"samples\":[";
  first = true;
  for (auto &p : samples) {
    o << (first ? "" : ",\n") << "{\"inputs\":";
    inp(p.in);
    o << ",\"obs\":[";
    bool f2 = true;
    for (auto v : p.obs) { o << (f2 ? "" : ",") << v; f2 = false; }
    o << "]}";
    first = false;
  }
  o << "],\n\"repo_functions\":[";
  first = true;
  std::map<std::string, std::pair<std::set<unsigned>, std::set<unsigned>>> lines;
  for (auto &p : dfuncs) {
    if (!p.second->isRepo) continue;
    if (p.second->entered) { o << (first ? "" : ",") << jstr(demangled(p.first)); first = false; }
    for (auto &b : p.second->blocks) for (auto &d : b.insts)
      if (auto L = d.I->getDebugLoc()) {
        std::string fn = fileOf(L.get());
        if (fn.compare(0, repoPrefix.size(), repoPrefix) != 0) continue;
        lines[fn].first.insert(L.getLine());
        if (d.visited) lines[fn].second.insert(L.getLine());
      }
  }
  o << "],\n\"repo_lines\":{";
  first = true;
  for (auto &l : lines) {
    o << (first ? "" : ",") << jstr(l.first) << ":{\"reached\":[";
    bool f2 = true;
    for (unsigned x : l.second.second) { o << (f2 ? "" : ",") << x; f2 = false; }
    o << "],\"not_reached\":[";
    f2 = true;
    for (unsigned x : l.second.first) if (!l.second.second.count(x)) { o << (f2 ? "" : ",") << x; f2 = false; }
    o << "]}";
    first = false;
  }
  o << "}}\n";
  o.close();
  fflush(nullptr);
  _exit(viols.empty() ? (incomplete.empty() ? 0 : 3) : 1);
}
