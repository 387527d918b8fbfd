// Program state of the symbolic executor.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <string>
#include <vector>

struct Val { uint64_t c; E e; Val() : c(0), e(nullptr) {} Val(uint64_t x) : c(x), e(nullptr) {} Val(uint64_t x, E y) : c(x), e(y) {} };
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e) { if (e->k == K::Const && e->w <= 64) return Val((uint64_t)e->c); return Val(0, e); }

enum ObjKind : uint8_t { OGlobal, OStack, ONew, ONewArr, OMalloc, OExn, OMisc };
static const int MAXT = 8;
struct Clk { uint16_t t[MAXT]; Clk() { memset(t, 0, sizeof t); }
  void join(const Clk& o) { for (int i = 0; i < MAXT; i++) if (o.t[i] > t[i]) t[i] = o.t[i]; } };
struct Cell { uint16_t wc = 0; uint8_t wt = 0; uint8_t wa = 0; uint16_t r[MAXT] = {0}; uint32_t ws = 0, rs = 0; };   // last write (thread, clock, site), reads per thread
struct Obj {
  int rc = 1; uint32_t id = 0; uint64_t size = 0; ObjKind kind = OMisc; bool freed = false, ro = false;
  uint8_t* b = nullptr; E* s = nullptr; uint8_t* un = nullptr; Cell* sh = nullptr;
  const llvm::Instruction* site = nullptr; const llvm::Instruction* fsite = nullptr; const char* name = nullptr;
  ~Obj() { free(b); free(s); free(un); free(sh); }
};
static inline void objRel(Obj* o) { if (o && --o->rc == 0) delete o; }
struct Chunk { int rc = 1; Obj* o[64] = {nullptr}; };
static inline void chunkRel(Chunk* c) { if (c && --c->rc == 0) { for (auto* o : c->o) objRel(o); delete c; } }
struct Heap {
  std::vector<Chunk*> ch;
  Heap() {}
  Heap(const Heap& h) : ch(h.ch) { for (auto* c : ch) if (c) c->rc++; }
  Heap& operator=(const Heap&) = delete;
  ~Heap() { for (auto* c : ch) chunkRel(c); }
  Obj* get(uint32_t id) const { uint32_t k = id >> 6; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[id & 63]; }
  Chunk* ownChunk(uint32_t k) {
    if (k >= ch.size()) ch.resize(k + 1, nullptr);
    Chunk*& c = ch[k];
    if (!c) c = new Chunk;
    else if (c->rc > 1) { Chunk* n = new Chunk; for (int i = 0; i < 64; i++) { n->o[i] = c->o[i]; if (n->o[i]) n->o[i]->rc++; } c->rc--; c = n; }
    return c;
  }
  Obj* mut(uint32_t id) {
    Chunk* c = ownChunk(id >> 6); Obj*& o = c->o[id & 63];
    if (o->rc > 1) {
      Obj* n = new Obj; n->id = o->id; n->size = o->size; n->kind = o->kind; n->freed = o->freed; n->ro = o->ro; n->site = o->site; n->fsite = o->fsite; n->name = o->name;
      if (o->b) { n->b = (uint8_t*)malloc(o->size + 1); memcpy(n->b, o->b, o->size); }
      if (o->s) { n->s = (E*)malloc(sizeof(E) * (o->size + 1)); memcpy(n->s, o->s, sizeof(E) * o->size); }
      if (o->un) { n->un = (uint8_t*)malloc(o->size + 1); memcpy(n->un, o->un, o->size); }
      if (o->sh) { n->sh = (Cell*)malloc(sizeof(Cell) * (o->size + 1)); memcpy(n->sh, o->sh, sizeof(Cell) * o->size); }
      o->rc--; o = n;
    }
    return o;
  }
  void put(uint32_t id, Obj* n) { Chunk* c = ownChunk(id >> 6); objRel(c->o[id & 63]); c->o[id & 63] = n; }
};

struct State; struct DI; struct Fn;
enum BRes { BDone, BPushed, BYield, BEnd };   // builtin result: value set / frame pushed or control moved / not executed (retry after scheduling) / thread ended
struct BCtx { State& S; const DI& d; std::vector<Val>& a; Val ret; bool hasRet = false; };
typedef BRes (*Builtin)(BCtx&);

struct Opnd { int slot; Val v; };            // slot < 0: constant v
struct PhiD { int dst; uint16_t n; std::vector<std::pair<int, std::vector<Opnd>>> in; };
struct DI {
  const llvm::Instruction* I; unsigned op; unsigned w = 0, w2 = 0; int dst = -1; int nslots = 0;
  std::vector<Opnd> ops; std::vector<unsigned> opw;      // flattened operands with widths
  std::vector<int> tgt; std::vector<std::pair<uint64_t, int>> cases;
  Fn* callee = nullptr; uint64_t imm = 0; int64_t off = 0; std::vector<std::pair<int, int64_t>> gep;   // operand index, scale
  bool flag = false, isPtr = false; std::vector<uint32_t> argStart; std::vector<uint64_t> byval; unsigned pred = 0; bool atomic = false;
  std::vector<std::tuple<int, uint64_t, int>> segs;       // aggregates in memory: slot offset, byte offset, width
};
struct Blk { int first; std::vector<PhiD> phis; const llvm::BasicBlock* bb; };
struct Fn {
  llvm::Function* F = nullptr; uint32_t idx = 0; bool decoded = false; int nregs = 0; std::vector<DI> code; std::vector<Blk> blks;
  std::vector<int> argSlot; std::vector<int> argN; Builtin bi = nullptr; std::string name; bool quietAtomic = false; bool covered = false; bool hasBody = false; bool inRepo = false; std::string file;
};
struct Frame {
  Fn* fn; int pc = 0; int blk = 0; std::vector<Val> r; std::vector<uint32_t> allocas; std::vector<Val> va;
  int retSlot = -1; int retN = 0; const DI* call = nullptr; uint8_t special = 0; uint64_t spArg = 0;     // special: what to do when it returns
};
enum TStat : uint8_t { TRun, TCondWait, TSleep, TDone };
struct Thr {
  std::vector<Frame> st; TStat stat = TRun; uint64_t waitC = 0, waitM = 0, deadline = 0; bool timed = false, timedOut = false, woken = false;
  uint64_t wantMutex = 0; int wantJoin = -1; int relock = 0; bool atPoint = false; bool wantW = false;
  std::vector<std::pair<uint64_t, int>> caught; int uncaught = 0; Clk clk; uint64_t retval = 0; bool joined = false, detached = false; uint64_t inflight = 0;
};
struct ExnRec { uint64_t ti = 0, dtor = 0, adj = 0; int refs = 0, pins = 0; };
struct Mtx { int owner = -1; int count = 0; int readers = 0; Clk clk; };
struct Input { std::string name; std::vector<Val> bytes; };
struct State {
  Heap heap; std::vector<Thr> th; int cur = 0; std::vector<E> pc; std::unordered_set<E> known; std::unordered_map<E, uint64_t> fixed; Model model;
  std::vector<uint64_t> trail; size_t tpos = 0; bool replaying = false;
  std::vector<Input> inputs; std::vector<std::pair<std::string, std::vector<Val>>> obs;
  std::map<uint64_t, Mtx> mtx; std::map<uint64_t, Clk> sync; std::map<uint64_t, ExnRec> exn; std::unordered_map<E, uint32_t> resolved; E instE = nullptr; int needPick = 0;
  uint64_t clock = 1000000000; int preempts = 0, timeouts = 0, spurious = 0, idle = 0; bool granted = false;
  uint32_t nextId = 0; uint32_t nvar = 0; uint64_t steps = 0; uint64_t errnoAddr[MAXT] = {0}; int depth = 0; uint32_t nsched = 0; bool mt = false;
  std::vector<const char*> covers;
};
struct PathEnd { int kind; std::string msg; };   // 0 completed, 1 violation, 2 pruned, 3 incomplete
struct Restart {};                               // re-execute the current instruction
