// cosym: a bounded symbolic executor for LLVM IR with multiple execution
// contexts (boost.context switch primitives), the Itanium C++ exception ABI and
// an SMT back end (z3).  See DESIGN.md for the semantics that are modelled.
#pragma once
#include <array>
#include <cstring>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3++.h>

#include "llvm/ADT/DenseMap.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---- scalar values: concrete up to 64 bits, or a z3 bit-vector term ----------
struct SV {
  u64 c = 0;
  Z3_ast e = nullptr;  // non-null: symbolic; terms are kept alive for the whole run
  u32 w = 0;
  SV() {}
  SV(u64 c_, u32 w_) : c(w_ >= 64 ? c_ : (c_ & ((u64(1) << w_) - 1))), w(w_) {}
  bool sym() const { return e != nullptr; }
};
struct RV {  // register value: a scalar, or an aggregate flattened to its leaves
  SV s;
  std::shared_ptr<std::vector<SV>> agg;
};

// ---- memory ----------------------------------------------------------------
enum { PG = 256 };
enum : u8 { T_UNDEF = 0, T_CONC = 1, T_SYM = 2 };
struct Page {
  u8 data[PG];
  u8 tag[PG];
  std::unique_ptr<Z3_ast[]> sym;
  Page() { memset(tag, 0, sizeof tag); memset(data, 0, sizeof data); }
  Page(const Page &o) {
    memcpy(data, o.data, PG);
    memcpy(tag, o.tag, PG);
    if (o.sym) {
      sym.reset(new Z3_ast[PG]);
      memcpy(sym.get(), o.sym.get(), PG * sizeof(Z3_ast));
    }
  }
};
// page table: two levels, both copied on write
struct PageLeaf { std::shared_ptr<Page> p[64]; };
struct PageTab {
  std::vector<std::shared_ptr<PageLeaf>> l;
  void reset(size_t n) { l.clear(); l.resize((n + 63) / 64); }
  void drop() { l.clear(); l.shrink_to_fit(); }
  Page *get(size_t i) const { PageLeaf *f = l[i / 64].get(); return f ? f->p[i % 64].get() : nullptr; }
  std::shared_ptr<Page> &mut(size_t i) {
    auto &f = l[i / 64];
    if (!f) f = std::make_shared<PageLeaf>();
    else if (f.use_count() > 1) f = std::make_shared<PageLeaf>(*f);
    return f->p[i % 64];
  }
};
enum ObjKind : u8 { O_GLOBAL, O_CONST, O_HEAP, O_STACK, O_EXC, O_MMAP, O_EXTERN };
struct StackRegion { int ctx; SV lo, hi; };
struct MemObj {
  u64 base = 0, size = 0;
  ObjKind kind = O_GLOBAL;
  bool alive = true, zeroDefault = false;
  u8 allocKind = 0;  // 0 malloc 1 new 2 new[] 3 mmap
  int ctx = -1;      // owner context of stack objects
  u64 noaccessLo = 0, noaccessHi = 0;  // PROT_NONE range, offsets
  std::vector<StackRegion> regions;    // run-time stacks of contexts inside this object
  PageTab pages;
  const char *desc = "";
};

// ---- decoded code ------------------------------------------------------------
struct DInst {
  const llvm::Instruction *I;
  unsigned op;
  int res = -1;            // result slot
  std::vector<int> ops;    // >=0 slot, <0 constant ~idx
  bool visited = false;
};
struct DBlock { std::vector<DInst> insts; const llvm::BasicBlock *bb; };
struct DFunc {
  const llvm::Function *F;
  int nslots = 0;
  std::vector<DBlock> blocks;
  llvm::DenseMap<const llvm::BasicBlock *, int> bbIdx;
  llvm::DenseMap<const llvm::Value *, int> slot;
  bool isRepo = false;
  bool entered = false;
};

enum OnRet : u8 { R_NONE, R_FREE_EXC, R_HARNESS_DONE, R_GCTOR, R_HOOK, R_THREAD, R_STEP, R_GUARD };
struct Frame {
  DFunc *f = nullptr;
  int bb = 0, prevbb = -1, ip = 0;
  std::vector<RV> regs;
  std::vector<u64> allocas;
  OnRet onret = R_NONE;
  u64 retdata = 0;
};

enum CtxState : u8 { C_NEW, C_SUSP, C_RUN, C_DEAD };
struct Context {
  CtxState st = C_RUN;
  u64 handle = 0;
  bool ontop = false;  // suspended by ontop_fcontext: handed itself over, possibly for good
  const llvm::Function *entry = nullptr;
  SV lo, hi;
  std::vector<Frame> frames;
};

struct Occ {  // one thrown (or rethrown) exception object header
  u64 id = 0;         // unwind header address handed to landing pads
  u64 obj = 0;        // thrown object
  u64 ti = 0, dtor = 0;
  int handlers = 0;
  bool dependent = false;
  u64 next = 0;
  bool live = true;
};
struct ExcObj { u64 ti = 0, dtor = 0; int refs = 0; bool alive = true; };
struct Globals { u64 caught = 0; int uncaught = 0; };

// happens-before tracking of a region in which logical threads 1..3 run unsynchronised
struct RaceCell { u32 w[4] = { 0, 0, 0, 0 }, r[4] = { 0, 0, 0, 0 }; };
struct Race {
  u32 vc[4][4];
  std::map<u64, RaceCell> cells;           // per byte
  std::map<u64, std::array<u32, 4>> sync;  // per synchronisation object
};
struct SymInput { std::string name; u32 w; Z3_ast e; u64 conc; bool isConc; };

struct State {
  std::vector<Context> ctxs;
  int cur = 0;
  std::map<u64, std::shared_ptr<MemObj>> mem;
  std::vector<Z3_ast> pc;
  std::shared_ptr<z3::model> model;
  std::vector<SymInput> inputs;
  std::vector<SV> obs;
  std::map<u64, Occ> occs;
  std::map<u64, ExcObj> excs;
  std::map<int, Globals> eh;   // per logical thread
  int thread = 0;
  int tctx[4] = {-1, -1, -1, -1};   // where a thread that has yielded goes on
  int tcaller = 0;
  std::shared_ptr<Race> race;   // null outside such a region
  std::map<std::pair<int, u64>, u64> tls;
  std::vector<std::pair<int, std::pair<u64, u64>>> tlsDtors;   // thread, (destructor, object)
  u64 nextHeap = 0, nextStack = 0, nextHandle = 0, nextExc = 0;
  u64 steps = 0, symctr = 0, checks = 0;
  int heapLive = 0, heapBig = 0;   // live blocks, and those of at least 2048 bytes
  u64 heapMade = 0;
  std::vector<u64> tape;  // fixed inputs (concrete re-execution)
  int switches = 0;
  std::map<std::string, int> nameCtr;
  std::vector<std::string> covers;
  u64 lpId = 0; u32 lpSel = 0;
  std::map<Z3_ast, u64> conc;
  bool done = false;
};

struct Violation {
  std::string kind, msg, where;
  std::vector<std::string> bt;
  std::vector<std::pair<std::string, u64>> inputs;
};
