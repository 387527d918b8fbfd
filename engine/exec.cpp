#include <functional>
// The executor: one state, one instruction at a time; forks on symbolic decisions.
#include "engine.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <algorithm>
#include <cmath>
using namespace llvm;
Config gCfg; std::vector<Fn*> gFns; std::unordered_map<std::string, Builtin> gBuiltins; Module* gM;
void decodeFn(Fn* f);
extern std::vector<State*> gWork;
static std::unordered_map<std::string, E> gVarMemo;
uint64_t gTotalSteps, gForks, gAsserts, gAssertQueries;
std::set<std::string> gCovers; 

const char* internStr(const std::string& s) { static std::set<std::string>* t = new std::set<std::string>; return t->insert(s).first->c_str(); }
E freshVar(State& S, const std::string& name, unsigned w, bool uninit) {
  std::string key = std::to_string(S.nvar++) + "/" + std::to_string(w) + (uninit ? "u" : "s") + name;
  E& e = gVarMemo[key]; if (!e) e = mkVar(name, w, uninit); return e;
}
static Frame& top(State& S) { return S.th[S.cur].st.back(); }
static std::string where(const Instruction* I) {
  if (!I) return "?";
  std::string s; if (auto& dl = I->getDebugLoc()) { std::string f = cast<DIScope>(dl.getScope())->getFilename().str(); size_t p = f.rfind('/'); s = (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(dl.getLine()); }
  return I->getFunction()->getName().str() + (s.empty() ? "" : " (" + s + ")");
}
std::string whereStr(const Instruction* I) { return where(I); }
static const Instruction* curInst(State& S) { if (S.th[S.cur].st.empty()) return nullptr; Frame& f = top(S); return f.fn->code[f.pc].I; }
void violation(State& S, const std::string& msg) { throw PathEnd{1, msg}; }
void incomplete(State& S, const std::string& why) { throw PathEnd{3, why}; }

// ---------- decisions ----------
static bool inPc(State& S, E c) { return S.known.count(c); }
static void addPc(State& S, E c) {
  if (c->k == K::Const) return;
  if (c->k == K::And && c->w == 1) { addPc(S, c->a); addPc(S, c->b); S.known.insert(c); return; }
  if (S.known.insert(c).second) S.pc.push_back(c);
}
static void fixModel(State& S) {
  S.replaying = false;
  for (E c : S.pc) if (!evalExpr(c, S.model)) {
    Model m; Res r = solve(S.pc, c, S.model, m); if (r == Res::Unsat) throw PathEnd{2, "infeasible"}; if (r != Res::Sat) incomplete(S, "solver gave no answer"); S.model = m; }
}
static void checkReplayEnd(State& S) { if (S.replaying && S.tpos >= S.trail.size()) fixModel(S); }
static E renameUninit(E e, std::unordered_map<E, E>& m) {
  if (!e->uninit) return e;
  auto it = m.find(e); if (it != m.end()) return it->second;
  E r;
  if (e->k == K::Var) { static std::unordered_map<E, E> tw; E& t = tw[e]; if (!t) t = mkVar(gVars[(uint32_t)e->c].name + "'", e->w, true); r = t; }
  else { E a = e->a ? renameUninit(e->a, m) : nullptr, b = e->b ? renameUninit(e->b, m) : nullptr, d = e->d ? renameUninit(e->d, m) : nullptr;
    switch (e->k) { case K::Ite: r = mkIte(a, b, d); break; case K::Concat: r = mkConcat(a, b); break; case K::Extract: r = mkExtract(a, (unsigned)e->c, e->w); break; case K::ZExt: r = mkZExt(a, e->w); break; case K::SExt: r = mkSExt(a, e->w); break;
      case K::FFromS: case K::FFromU: case K::FToS: case K::FToU: case K::FConv: r = mkFUn(e->k, a, e->w); break; default: r = mkBin(e->k, a, b); } }
  m[e] = r; return r;
}
static void checkUninit(State& S, E e, const char* what) {
  if (!e->uninit || S.replaying) return;
  std::unordered_map<E, E> m; E e2 = renameUninit(e, m);
  E diff = mkNot1(mkEq(e, e2)); Model out;
  if (solve(S.pc, diff, S.model, out) == Res::Sat) { S.model = out; violation(S, std::string("use of uninitialised memory (") + what + ")"); }
}
static State* fork(State& S) { gForks++; State* n = new State(S); return n; }

bool decide(State& S, E c) {
  if (c->k == K::Const) return c->c;
  if (inPc(S, c)) return true;
  E nc = mkNot1(c);
  if (inPc(S, nc)) return false;
  if (c->uninit) checkUninit(S, c, "branch");
  if (S.replaying) {
    bool v = S.trail[S.tpos++]; addPc(S, v ? c : nc); checkReplayEnd(S); return v;
  }
  if (S.trail.size() >= gCfg.maxBranches) violation(S, "no termination within " + std::to_string(gCfg.maxBranches) + " input-dependent decisions");
  bool v = evalExpr(c, S.model) != 0; E mine = v ? c : nc, other = v ? nc : c;
  Model om; Res r = solve(S.pc, other, S.model, om);
  if (r == Res::Unsat) { S.known.insert(mine); S.trail.push_back(v); return v; }
  if (r == Res::Unknown) incomplete(S, "solver gave no answer");
  State* n = fork(S); n->trail.push_back(!v); n->model = om; addPc(*n, other); gWork.push_back(n);
  S.trail.push_back(v); addPc(S, mine); return v;
}
bool decideV(State& S, const Val& v, unsigned w) { if (!v.e) return v.c & 1; E e = v.e; if (e->w != 1) e = mkNot1(mkEq(e, mkConst(0, e->w))); return decide(S, e); }
uint64_t concretize(State& S, const Val& v, unsigned w) {
  if (!v.e) return v.c;
  if (v.e->k == K::Const) return (uint64_t)v.e->c;
  auto it = S.fixed.find(v.e); if (it != S.fixed.end()) return it->second;
  if (v.e->uninit) checkUninit(S, v.e, "value that must be concrete");
  for (int i = 0;; i++) {
    uint64_t x;
    if (S.replaying) x = S.trail[S.tpos++]; else { x = (uint64_t)evalExpr(v.e, S.model); S.trail.push_back(x); }
    if (S.replaying && S.tpos >= S.trail.size()) { fixModel(S); /* cut exactly between candidate and decision cannot happen: they are pushed together */ }
    if (decide(S, mkEq(v.e, mkConst(x, v.e->w)))) { S.fixed[v.e] = x; return x; }
    if (i > 300) incomplete(S, "too many values to enumerate");
  }
}
// A choice among n alternatives is a symbolic variable in [0, n); every alternative the solver finds possible is explored.
int chooseN(State& S, int n, bool sched) {
  if (n <= 1) return 0;
  if (!S.instE) { S.instE = freshVar(S, sched ? "sched#" + std::to_string(S.nsched++) : "choice", 8); assumeC(S, mkUlt(S.instE, mkConst(n, 8))); }
  E v = S.instE; int pick = 0;
  while (pick < n - 1 && !decide(S, mkEq(v, mkConst(pick, 8)))) pick++;
  S.instE = nullptr;
  if (sched) S.inputs.push_back({"!sched", {Val(pick)}});
  return pick;
}
void assumeC(State& S, E c) {
  if (c->k == K::Const) { if (!c->c) throw PathEnd{2, "assume"}; return; }
  if (inPc(S, c)) return;
  if (!S.replaying && !evalExpr(c, S.model)) { Model m; Res r = solve(S.pc, c, S.model, m); if (r == Res::Unsat) throw PathEnd{2, "assume"}; if (r == Res::Unknown) incomplete(S, "solver gave no answer"); S.model = m; }
  addPc(S, c);
}
void checkAssert(State& S, E c, const std::string& msg) {
  if (S.replaying) { addPc(S, c); return; }
  gAsserts++;
  if (c->k == K::Const) { if (!c->c) violation(S, msg); return; }
  if (inPc(S, c)) return;
  gAssertQueries++;
  Model m; Res r = solve(S.pc, mkNot1(c), S.model, m, true);
  if (r == Res::Sat) { S.model = m; violation(S, msg); }
  if (r == Res::Unknown) incomplete(S, "solver gave no answer");
  S.known.insert(c);
}
void noteCover(State& S, const char* n) { S.covers.push_back(n); if (!S.replaying) gCovers.insert(n); }

// ---------- memory ----------
uint64_t allocObj(State& S, uint64_t size, ObjKind k, bool zero, const char* name) {
  Obj* o = new Obj; o->id = S.nextId++; o->size = size; o->kind = k; o->name = name; o->site = k == OGlobal ? nullptr : curInst(S);
  o->b = (uint8_t*)calloc(1, size + 1);
  if (!zero && size) { o->un = (uint8_t*)malloc(size); memset(o->un, 1, size); }
  if (o->id >= 0x3fff0000u) incomplete(S, "too many objects");
  S.heap.put(o->id, o); return (uint64_t)o->id << 32;
}
static std::string objDesc(const Obj* o) {
  std::string s; const char* kn[] = {"global", "stack", "heap(new)", "heap(new[])", "heap(malloc)", "exception", "object"};
  s = kn[o->kind]; s += " object"; if (o->name) s += std::string(" '") + o->name + "'"; s += " of " + std::to_string(o->size) + " bytes"; if (o->site) s += " from " + where(o->site); if (o->freed && o->fsite) s += ", released in " + where(o->fsite); return s;
}
static void race(State& S, Obj* o, uint64_t off, uint64_t n, bool write, bool atomic) {
  if (!S.mt || !gCfg.races || o->freed) return;
  if (o->kind == OGlobal && o->ro) return;
  if (!o->sh) { o = S.heap.mut(o->id); o->sh = (Cell*)calloc(o->size + 1, sizeof(Cell)); } else o = S.heap.mut(o->id);
  Thr& t = S.th[S.cur]; int me = S.cur; Clk& k = t.clk;
  const Instruction* I = curInst(S); static std::unordered_map<const Instruction*, uint32_t> ids; static std::vector<const Instruction*> rev{nullptr};
  uint32_t& id = ids[I]; if (!id) { id = rev.size(); rev.push_back(I); }
  for (uint64_t i = off; i < off + n; i++) {
    Cell& c = o->sh[i];
    if (c.wc && c.wt != me && c.wc > k.t[c.wt] && !(atomic && c.wa)) violation(S, "data race: " + std::string(write ? "write" : "read") + " in " + where(I) + " and unordered write in " + where(rev[c.ws]) + " on " + objDesc(o));
    if (write) { for (int j = 0; j < MAXT; j++) if (j != me && c.r[j] > k.t[j] && !atomic) violation(S, "data race: write in " + where(I) + " and unordered read in " + where(rev[c.rs]) + " on " + objDesc(o));
      c.wc = k.t[me]; c.wt = me; c.wa = atomic; c.ws = id; }
    else if (!atomic) { c.r[me] = k.t[me]; c.rs = id; }
  }
}
struct Ref { uint32_t id; uint64_t off; E offE; };
static Obj* checkObj(State& S, uint64_t a, uint64_t n, bool write) {
  uint32_t id = a >> 32; uint64_t off = a & 0xffffffffu;
  if (id == 0 || a < 0x100000000ull) violation(S, std::string("null pointer dereference (") + (write ? "write" : "read") + " at offset " + std::to_string(a) + ")");
  if (id >= 0x40000000u) violation(S, "access through a function or invalid pointer");
  Obj* o = S.heap.get(id);
  if (!o) violation(S, "access through an invalid pointer");
  if (o->freed) violation(S, std::string(o->kind == OStack ? "use after return/scope (" : "use after free (") + (write ? "write" : "read") + ") of " + objDesc(o));
  if (off > o->size || n > o->size - off) violation(S, std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)(int32_t)off) + " of " + objDesc(o));
  if (write && o->ro) violation(S, "write to constant " + objDesc(o));
  if (o->name && o->name[0] == '?') incomplete(S, std::string("unmodelled external object ") + (o->name + 1));
  return o;
}
static unsigned trailingZeros(E e) {
  switch (e->k) {
    case K::Const: { unsigned n = 0; while (n < e->w && !((e->c >> n) & 1)) n++; return n; }
    case K::Concat: { unsigned l = trailingZeros(e->b); return l == e->b->w ? l + trailingZeros(e->a) : l; }
    case K::ZExt: case K::SExt: { unsigned l = trailingZeros(e->a); return l == e->a->w ? e->w : l; }
    case K::Add: case K::Sub: case K::Or: return std::min(trailingZeros(e->a), trailingZeros(e->b));
    case K::Mul: return std::min<unsigned>(e->w, trailingZeros(e->a) + trailingZeros(e->b));
    case K::Ite: return std::min(trailingZeros(e->b), trailingZeros(e->d));
    default: return 0;
  }
}
static Ref resolve(State& S, const Val& a, uint64_t n, bool write) {
  if (!a.e) { Obj* o = checkObj(S, a.c, n, write); return {o->id, a.c & 0xffffffffu, nullptr}; }
  auto it = S.fixed.find(a.e); if (it != S.fixed.end()) { Obj* o = checkObj(S, it->second, n, write); return {o->id, it->second & 0xffffffffu, nullptr}; }
  if (a.e->uninit) checkUninit(S, a.e, "address");
  for (int i = 0;; i++) {
    Obj* o; auto rs = S.resolved.find(a.e);
    if (rs != S.resolved.end()) { o = S.heap.get(rs->second); checkObj(S, (uint64_t)rs->second << 32, n, write); }
    else {
      uint64_t v; if (S.replaying) { v = S.trail[S.tpos++]; checkReplayEnd(S); } else { v = (uint64_t)evalExpr(a.e, S.model); S.trail.push_back(v); }
      o = checkObj(S, v, n, write);
    }
    uint64_t base = (uint64_t)o->id << 32;
    E rel = mkSub(a.e, mkConst(base, 64));
    if (decide(S, mkUle(rel, mkConst(o->size - n, 64)))) {
      S.resolved[a.e] = o->id;
      uint64_t cells = o->size; if (n && !gCfg.concAddr && cells / (1u << std::min(trailingZeros(rel), 3u)) <= 400) { E off = mkExtract(rel, 0, 32); if (off->k == K::Const) return {o->id, (uint64_t)off->c, nullptr}; return {o->id, 0, off}; }
      uint64_t c = concretize(S, a, 64); o = checkObj(S, c, n, write); return {o->id, c & 0xffffffffu, nullptr};
    }
    S.resolved.erase(a.e);
    if (i > 200) incomplete(S, "pointer with too many targets");
  }
}
static E byteE(State& S, Obj*& o, uint64_t i) {
  if (o->s && o->s[i]) return o->s[i];
  if (o->un && o->un[i]) {
    uint32_t id = o->id; o = S.heap.mut(id);
    if (!o->s) o->s = (E*)calloc(o->size + 1, sizeof(E));
    o->s[i] = freshVar(S, "uninit", 8, true); o->un[i] = 0; return o->s[i];
  }
  return mkConst(o->b[i], 8);
}
static Val loadAt(State& S, uint32_t id, uint64_t off, unsigned n) {
  Obj* o = S.heap.get(id); bool plain = true;
  if (o->s) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { plain = false; break; }
  if (plain && o->un) for (unsigned i = 0; i < n; i++) if (o->un[off + i]) { plain = false; break; }
  if (plain && n <= 8) { uint64_t v = 0; memcpy(&v, o->b + off, n); return Val(v); }
  if (o->un) { // a wholly uninitialised word becomes one variable
    bool all = true; for (unsigned i = 0; i < n; i++) if (!o->un[off + i] || (o->s && o->s[off + i])) { all = false; break; }
    if (all && n <= 8) { o = S.heap.mut(id); if (!o->s) o->s = (E*)calloc(o->size + 1, sizeof(E)); E v = freshVar(S, "uninit", n * 8, true); for (unsigned i = 0; i < n; i++) { o->s[off + i] = mkExtract(v, i * 8, 8); o->un[off + i] = 0; } return Val(0, v); }
  }
  E e = nullptr; for (int i = n - 1; i >= 0; i--) { E b = byteE(S, o, off + i); e = e ? mkConcat(e, b) : b; }
  return fromE(e);
}
Val load(State& S, const Val& a, unsigned w, bool atomic) {
  unsigned n = (w + 7) / 8; Ref r = resolve(S, a, n, false); Obj* o = S.heap.get(r.id); Val v;
  if (!r.offE) { if (S.mt) race(S, o, r.off, n, false, atomic); v = loadAt(S, r.id, r.off, n); }
  else {
    if (S.mt) race(S, o, 0, o->size, false, atomic);
    uint64_t stride = 1ull << std::min(trailingZeros(r.offE), 6u), start = 0;
    if (r.offE->k == K::Add && r.offE->b->k == K::Const) { stride = 1ull << std::min(trailingZeros(r.offE->a), 6u); start = (uint64_t)r.offE->b->c % stride; }
    std::vector<std::pair<uint64_t, E>> pos; uint64_t sz = o->size;
    for (uint64_t p = start; p + n <= sz; p += stride) { Val x = loadAt(S, r.id, p, n); pos.push_back({p, toE(x, n * 8)}); }
    unsigned runs = 1; for (size_t i = 0; i + 1 < pos.size(); i++) runs += pos[i].second != pos[i + 1].second;
    E res = pos.back().second;
    if (runs <= 6) { for (int i = (int)pos.size() - 2; i >= 0; i--) if (pos[i].second != pos[i + 1].second) res = mkIte(mkUlt(r.offE, mkConst(pos[i + 1].first, 32)), pos[i].second, res); }
    else {   // selection by the bits of the index
      E ix = mkAdd(r.offE, mkConst((u128)(-(s128)start), 32)); unsigned sh = __builtin_ctzll(stride), nb = 0; while ((1ull << nb) < pos.size()) nb++;
      std::function<E(uint64_t, unsigned)> sel = [&](uint64_t lo, unsigned b) -> E { if (lo >= pos.size()) return pos.back().second; if (!b) return pos[lo].second; return mkIte(mkExtract(ix, sh + b - 1, 1), sel(lo + (1ull << (b - 1)), b - 1), sel(lo, b - 1)); };
      res = sel(0, nb);
    }
    v = fromE(res);
  }
  if (w < n * 8) { if (v.e) v = fromE(mkExtract(v.e, 0, w)); else v.c &= (uint64_t)maskw(w); }
  return v;
}
static void setByte(Obj* o, uint64_t i, E e) {
  if (o->un) o->un[i] = 0;
  if (e->k == K::Const) { o->b[i] = (uint8_t)e->c; if (o->s) o->s[i] = nullptr; return; }
  if (!o->s) o->s = (E*)calloc(o->size + 1, sizeof(E));
  o->s[i] = e;
}
void store(State& S, const Val& a, const Val& v0, unsigned w, bool atomic) {
  unsigned n = (w + 7) / 8; Ref r = resolve(S, a, n, true); Val v = v0;
  if (w < n * 8 && v.e) v = Val(0, mkZExt(v.e, n * 8));
  if (S.mt) race(S, S.heap.get(r.id), r.offE ? 0 : r.off, r.offE ? S.heap.get(r.id)->size : n, true, atomic);
  Obj* o = S.heap.mut(r.id);
  if (!r.offE) {
    if (!v.e && n <= 8) { memcpy(o->b + r.off, &v.c, n); if (o->s) for (unsigned i = 0; i < n; i++) o->s[r.off + i] = nullptr; if (o->un) memset(o->un + r.off, 0, n); return; }
    E e = toE(v, n * 8); for (unsigned i = 0; i < n; i++) setByte(o, r.off + i, mkExtract(e, i * 8, 8)); return;
  }
  E e = toE(v, n * 8); std::vector<E> nb(o->size);
  for (uint64_t i = 0; i < o->size; i++) { Obj* oo = o; nb[i] = byteE(S, oo, i); o = oo; }
  for (uint64_t p = 0; p + n <= o->size; p++) { E c = mkEq(r.offE, mkConst(p, 32)); for (unsigned i = 0; i < n; i++) nb[p + i] = mkIte(c, mkExtract(e, i * 8, 8), nb[p + i]); }
  o = S.heap.mut(r.id); for (uint64_t i = 0; i < o->size; i++) setByte(o, i, nb[i]);
}
void readBytes(State& S, const Val& a, uint64_t n, std::vector<Val>& out, bool keep) {
  out.clear(); if (!n) return;
  uint64_t ad = concretize(S, a, 64); Obj* o = checkObj(S, ad, n, false); uint64_t off = ad & 0xffffffffu;
  if (S.mt) race(S, o, off, n, false, false); o = S.heap.get(o->id);
  out.reserve(n);
  for (uint64_t i = 0; i < n; i++) { if (keep && o->un && o->un[off + i] && !(o->s && o->s[off + i])) out.push_back(Val(256)); else out.push_back(fromE(byteE(S, o, off + i))); }
}
void writeBytes(State& S, const Val& a, const std::vector<Val>& in) {
  if (in.empty()) return;
  uint64_t ad = concretize(S, a, 64); Obj* o = checkObj(S, ad, in.size(), true); uint64_t off = ad & 0xffffffffu;
  if (S.mt) race(S, o, off, in.size(), true, false);
  o = S.heap.mut(o->id);
  for (size_t i = 0; i < in.size(); i++) {
    if (!in[i].e && in[i].c == 256) { if (!o->un) o->un = (uint8_t*)calloc(1, o->size + 1); o->un[off + i] = 1; if (o->s) o->s[off + i] = nullptr; }
    else setByte(o, off + i, toE(in[i], 8)); }
}
uint64_t rd(State& S, uint64_t a, unsigned bytes) { return concretize(S, load(S, Val(a), bytes * 8, true), bytes * 8); }
std::string readCStr(State& S, const Val& a, size_t max) {
  uint64_t p = concretize(S, a, 64); std::string s;
  for (size_t i = 0; i < max; i++) { uint64_t c = concretize(S, load(S, Val(p + i), 8), 8); if (!c) break; s.push_back((char)c); }
  return s;
}
void freeObj(State& S, uint64_t a, int kind, const char* what) {
  if (!a) return;
  uint32_t id = a >> 32; Obj* o = id < 0x40000000u ? S.heap.get(id) : nullptr;
  if (!o || id == 0) violation(S, std::string("invalid ") + what + " of a wild pointer");
  if (o->freed) violation(S, std::string("double ") + what + " of " + objDesc(o));
  if ((a & 0xffffffffu) != 0 || o->kind == OGlobal || o->kind == OStack) violation(S, std::string("invalid ") + what + " of " + objDesc(o));
  if (kind >= 0 && o->kind != kind) violation(S, std::string("mismatched ") + what + " of " + objDesc(o));
  if (S.mt) race(S, o, 0, o->size, true, false);
  o = S.heap.mut(id); o->freed = true; o->fsite = curInst(S); free(o->b); free(o->s); free(o->un); free(o->sh); o->b = nullptr; o->s = nullptr; o->un = nullptr; o->sh = nullptr;
}
static void dropAllocas(State& S, Frame& f) { for (uint32_t id : f.allocas) { Obj* o = S.heap.mut(id); if (o->freed) continue; o->freed = true; o->fsite = nullptr; free(o->b); free(o->s); free(o->un); free(o->sh); o->b = nullptr; o->s = nullptr; o->un = nullptr; o->sh = nullptr; } }

// ---------- calls ----------
Fn* fnAt(uint64_t a) { uint32_t id = a >> 32; if (id < 0x40000000u || (a & 0xffffffffu)) return nullptr; id -= 0x40000000u; return id < gFns.size() ? gFns[id] : nullptr; }
void pushCall(State& S, Fn* f, const std::vector<Val>& args, int retSlot, int retN, uint8_t special, uint64_t sp) {
  if (!f->hasBody) incomplete(S, "unmodelled external function " + f->name);
  if (!f->decoded) decodeFn(f);
  f->covered = true;
  if (S.th[S.cur].st.size() > 2500) violation(S, "unbounded recursion");
  Frame fr; fr.fn = f; fr.r.resize(f->nregs); fr.retSlot = retSlot; fr.retN = retN; fr.special = special; fr.spArg = sp;
  size_t k = 0; for (size_t i = 0; i < f->argSlot.size(); i++) for (int j = 0; j < f->argN[i]; j++) { if (k < args.size()) fr.r[f->argSlot[i] + j] = args[k]; k++; }
  if (f->F->isVarArg()) for (; k < args.size(); k++) fr.va.push_back(args[k]);
  fr.pc = f->blks[0].first; fr.blk = 0;
  S.th[S.cur].st.push_back(std::move(fr));
}
static inline Val get(Frame& f, const Opnd& o) { return o.slot < 0 ? o.v : f.r[o.slot]; }
static void branchTo(State& S, Frame& f, int to) {
  Blk& b = f.fn->blks[to]; int from = f.blk;
  if (!b.phis.empty()) {
    std::vector<Val> tmp;
    for (auto& p : b.phis) { const std::vector<Opnd>* in = nullptr; for (auto& x : p.in) if (x.first == from) { in = &x.second; break; } for (auto& o : *in) tmp.push_back(get(f, o)); }
    size_t k = 0; for (auto& p : b.phis) for (int j = 0; j < p.n; j++) f.r[p.dst + j] = tmp[k++];
  }
  f.blk = to; f.pc = b.first;
}
static void threadExit(State& S) {
  Thr& t = S.th[S.cur]; t.stat = TDone; t.clk.t[S.cur]++;
  if (S.cur == 0) throw PathEnd{0, "done"};
  S.granted = false; blockCurrent(S);
}
static void finishCall(State& S) {   // the top frame is a caller whose call instruction completed
  Frame& f = top(S); const DI& d = f.fn->code[f.pc];
  if (d.op == Instruction::Invoke) branchTo(S, f, d.tgt[0]); else f.pc++;
}
static void doReturn(State& S, const DI& d) {
  Frame& f = top(S); std::vector<Val> rv; for (auto& o : d.ops) rv.push_back(get(f, o));
  int rs = f.retSlot, rn = f.retN; uint8_t sp = f.special; uint64_t spArg = f.spArg;
  dropAllocas(S, f); S.th[S.cur].st.pop_back();
  if (S.th[S.cur].st.empty()) { S.th[S.cur].retval = rv.empty() || rv[0].e ? 0 : rv[0].c; threadExit(S); return; }
  if (sp == 1) { freeObj(S, spArg, OExn, "release"); }
  if (sp == 3) return;   // module constructors: the sentinel frame handles it
  Frame& c = top(S);
  for (int i = 0; i < rn && i < (int)rv.size(); i++) c.r[rs + i] = rv[i];
  finishCall(S);
}
// ---------- exceptions ----------
std::string typeName(State& S, uint64_t ti) { if (!ti) return "..."; Obj* o = S.heap.get(ti >> 32); if (!o || (o->name && o->name[0] == '?')) return o && o->name ? o->name + 1 : "?"; return readCStr(S, Val(rd(S, ti + 8, 8))); }
static bool isExt(State& S, uint64_t ti) { Obj* o = S.heap.get(ti >> 32); return !o || (o->name && o->name[0] == '?'); }
static bool sameType(State& S, uint64_t a, uint64_t b) { if (a == b) return true; if (isExt(S, a) || isExt(S, b)) return false; std::string x = typeName(S, a), y = typeName(S, b); return x == y && x[0] != '*'; }
static const char* tiKind(State& S, uint64_t ti) { if (isExt(S, ti)) return ""; uint64_t vt = rd(S, ti, 8); Obj* o = S.heap.get(vt >> 32); return o && o->name ? o->name : ""; }
static void bases(State& S, uint64_t p, uint64_t ti, uint64_t target, std::vector<uint64_t>& out, int depth = 0) {
  if (sameType(S, ti, target)) { out.push_back(p); return; }
  if (depth > 20) return;
  const char* k = tiKind(S, ti);
  if (strstr(k, "__si_class_type_info")) bases(S, p, rd(S, ti + 16, 8), target, out, depth + 1);
  else if (strstr(k, "__vmi_class_type_info")) {
    uint32_t n = (uint32_t)rd(S, ti + 20, 4);
    for (uint32_t i = 0; i < n; i++) { uint64_t b = rd(S, ti + 24 + 16 * i, 8); int64_t of = (int64_t)rd(S, ti + 32 + 16 * i, 8); int64_t delta = of >> 8; if (!(of & 2)) continue;
      if (of & 1) delta = (int64_t)rd(S, rd(S, p, 8) + delta, 8);
      bases(S, p + delta, b, target, out, depth + 1); }
  }
}
uint64_t castPtr(State& S, uint64_t p, uint64_t ti, uint64_t target, bool& found) { std::vector<uint64_t> o; bases(S, p, ti, target, o); std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); found = o.size() == 1; return found ? o[0] : 0; }
static const DI* landingPad(Frame& f) { const DI& d = f.fn->code[f.pc]; if (d.op != Instruction::Invoke) return nullptr; Blk& b = f.fn->blks[d.tgt[1]]; return &f.fn->code[b.first]; }
static bool matchClause(State& S, Frame& f, const DI& lp, uint64_t exn, uint64_t ti, uint64_t& adj, uint32_t& sel, bool& handler) {
  handler = false;
  for (auto& c : lp.cases) {
    if (c.first == 1) { handler = true; sel = 0xffffffffu; adj = exn; return true; }
    uint64_t ct = get(f, lp.ops[c.second]).c;
    if (ct == 0) { handler = true; sel = 0x3fffffff; adj = exn; return true; }
    bool found; uint64_t a = castPtr(S, exn, ti, ct, found);
    if (found) { handler = true; sel = ct >> 32; adj = a; return true; }
  }
  if (lp.flag) { sel = 0; adj = exn; return true; }
  return false;
}
void doThrow(State& S, uint64_t exn, bool search) {
  Thr& t = S.th[S.cur]; uint64_t ti = S.exn[exn].ti; uint64_t adj; uint32_t sel; bool h;
  if (search) {
    bool any = false;
    for (int i = (int)t.st.size() - 1; i >= 0 && !any; i--) { const DI* lp = landingPad(t.st[i]); if (lp && matchClause(S, t.st[i], *lp, exn, ti, adj, sel, h) && h) any = true; }
    if (!any) { std::string what = typeName(S, ti); violation(S, "uncaught exception of type " + what); }
  }
  while (!t.st.empty()) {
    Frame& f = t.st.back(); const DI* lp = landingPad(f);
    if (lp && matchClause(S, f, *lp, exn, ti, adj, sel, h)) {
      branchTo(S, f, f.fn->code[f.pc].tgt[1]);
      if (lp->dst >= 0) { f.r[lp->dst] = Val(exn); f.r[lp->dst + 1] = Val(sel); }
      f.pc++; if (h) S.exn[exn].adj = adj; return;
    }
    dropAllocas(S, f); t.st.pop_back();
  }
  violation(S, "exception escaped its thread");
}
// ---------- scheduling ----------
void syncAcq(State& S, uint64_t a) { if (S.mt) { auto it = S.sync.find(a); if (it != S.sync.end()) S.th[S.cur].clk.join(it->second); } }
void syncRel(State& S, uint64_t a) { if (S.mt) { S.sync[a].join(S.th[S.cur].clk); S.th[S.cur].clk.t[S.cur]++; } }
static bool enabledT(State& S, int i) {
  Thr& t = S.th[i];
  if (t.stat == TDone) return false;
  if (t.stat == TSleep) return false;
  if (t.stat == TCondWait && !t.woken) return false;
  if (t.wantMutex) { auto it = S.mtx.find(t.wantMutex); if (it != S.mtx.end()) { if (it->second.owner >= 0 && it->second.owner != i) return false; if (it->second.owner == i) return false; if (t.wantW && it->second.readers > 0) return false; } }
  if (t.wantJoin >= 0 && S.th[t.wantJoin].stat != TDone) return false;
  return true;
}
static bool timeoutable(State& S, int i) { Thr& t = S.th[i]; return (t.stat == TSleep) || (t.stat == TCondWait && t.timed && !t.woken); }
static void fireTimeout(State& S, int i) {
  Thr& t = S.th[i]; if (t.deadline > S.clock) S.clock = t.deadline;
  if (t.stat == TSleep) { t.stat = TRun; t.timedOut = true; } else { t.woken = true; t.timedOut = true; t.wantMutex = t.waitM; }
}
// Choose the next thread to run. Called when the current thread is at a visible operation (curEnabled) or cannot continue.
static void pickNext(State& S, bool curCan, bool yieldNow) {
  for (;;) {
    std::vector<std::pair<int, int>> opts;   // (thread; 1: its timeout fires first, 2: its wait returns spuriously)
    bool preemptOk = S.preempts < gCfg.preempt;
    if (curCan && !yieldNow) opts.push_back({S.cur, 0});
    bool others = false;
    for (int i = 0; i < (int)S.th.size(); i++) if (i != S.cur && enabledT(S, i)) { others = true; if (!curCan || yieldNow || preemptOk) opts.push_back({i, 0}); }
    if (!curCan && enabledT(S, S.cur)) opts.push_back({S.cur, 0});   // became enabled (e.g. a timeout fired)
    if (S.timeouts < gCfg.timeouts && (!opts.empty())) for (int i = 0; i < (int)S.th.size(); i++) if (timeoutable(S, i) && (preemptOk || !curCan || yieldNow)) opts.push_back({i, 1});
    if (S.spurious < gCfg.spurious && (!opts.empty())) for (int i = 0; i < (int)S.th.size(); i++) if (S.th[i].stat == TCondWait && !S.th[i].woken && (preemptOk || !curCan || yieldNow)) opts.push_back({i, 2});
    if (opts.empty() && curCan) opts.push_back({S.cur, 0});
    (void)others;
    if (opts.empty()) {
      // nothing can run: let the earliest timed wait expire
      int best = -1; for (int i = 0; i < (int)S.th.size(); i++) if (timeoutable(S, i) && (best < 0 || S.th[i].deadline < S.th[best].deadline)) best = i;
      if (best < 0) {
        std::string w; for (size_t i = 0; i < S.th.size(); i++) if (S.th[i].stat != TDone) { w += " thread " + std::to_string(i) + " in " + (S.th[i].st.empty() ? "?" : where(S.th[i].st.back().fn->code[S.th[i].st.back().pc].I)); }
        violation(S, "deadlock: no thread can continue;" + w);
      }
      if (++S.idle > gCfg.maxIdle) violation(S, "hang: only timed waits remain after " + std::to_string(gCfg.maxIdle) + " consecutive wait periods");
      fireTimeout(S, best); continue;
    }
    int k = chooseN(S, opts.size(), true); auto o = opts[k];
    if (o.second) { if (o.second == 2) { Thr& t = S.th[o.first]; t.woken = true; t.wantMutex = t.waitM; S.spurious++; } else { fireTimeout(S, o.first); S.timeouts++; } if (!enabledT(S, o.first)) { if (o.first == S.cur) {} continue; } }
    if (o.first != S.cur && curCan && !yieldNow) S.preempts++;
    S.cur = o.first; S.granted = true; S.needPick = 0; return;
  }
}
// A visible operation asks for permission; the main loop then picks a thread and grants it one operation.
bool schedPoint(State& S) { if (!S.mt || S.granted) return true; S.needPick = 1; return false; }
void visDone(State& S) { S.granted = false; }
void blockCurrent(State& S) { S.granted = false; S.needPick = 2; }
void yieldCurrent(State& S) { S.granted = false; S.needPick = 3; }

// ---------- the interpreter ----------
static inline uint64_t mk64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static K binK(unsigned op) { switch (op) { case Instruction::Add: return K::Add; case Instruction::Sub: return K::Sub; case Instruction::Mul: return K::Mul; case Instruction::UDiv: return K::UDiv; case Instruction::SDiv: return K::SDiv; case Instruction::URem: return K::URem; case Instruction::SRem: return K::SRem; case Instruction::And: return K::And; case Instruction::Or: return K::Or; case Instruction::Xor: return K::Xor; case Instruction::Shl: return K::Shl; case Instruction::LShr: return K::LShr; case Instruction::AShr: return K::AShr; case Instruction::FAdd: return K::FAdd; case Instruction::FSub: return K::FSub; case Instruction::FMul: return K::FMul; default: return K::FDiv; } }
static Val binop(State& S, unsigned op, const Val& a, const Val& b, unsigned w) {
  K k = binK(op);
  if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
    if (b.e) { if (decide(S, mkEq(b.e, mkConst(0, w)))) violation(S, "division by zero"); } else if (b.c == 0) violation(S, "division by zero");
  }
  if (!a.e && !b.e) {
    if (w <= 64) switch (op) { case Instruction::Add: return Val((a.c + b.c) & mk64(w)); case Instruction::Sub: return Val((a.c - b.c) & mk64(w)); case Instruction::And: return Val(a.c & b.c); case Instruction::Or: return Val(a.c | b.c); case Instruction::Xor: return Val(a.c ^ b.c); case Instruction::Mul: return Val((a.c * b.c) & mk64(w)); default: break; }
    u128 r; evalConstBin(k, a.c, b.c, w, r); return w <= 64 ? Val((uint64_t)r) : fromE(mkConst(r, w));
  }
  return fromE(mkBin(k, toE(a, w), toE(b, w)));
}
static Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c; int64_t sx = (int64_t)sextw(x, w), sy = (int64_t)sextw(y, w);
    switch (pred) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y;
      case CmpInst::ICMP_SLT: return sx < sy; case CmpInst::ICMP_SLE: return sx <= sy; case CmpInst::ICMP_SGT: return sx > sy; default: return sx >= sy; }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (pred) { case CmpInst::ICMP_EQ: return fromE(mkEq(x, y)); case CmpInst::ICMP_NE: return fromE(mkNot1(mkEq(x, y))); case CmpInst::ICMP_ULT: return fromE(mkUlt(x, y)); case CmpInst::ICMP_ULE: return fromE(mkUle(x, y)); case CmpInst::ICMP_UGT: return fromE(mkUlt(y, x)); case CmpInst::ICMP_UGE: return fromE(mkUle(y, x));
    case CmpInst::ICMP_SLT: return fromE(mkBin(K::Slt, x, y)); case CmpInst::ICMP_SLE: return fromE(mkBin(K::Sle, x, y)); case CmpInst::ICMP_SGT: return fromE(mkBin(K::Slt, y, x)); default: return fromE(mkBin(K::Sle, y, x)); }
}
static Val fcmp(State& S, unsigned pred, const Val& a, const Val& b, unsigned w) {
  if (w != 32 && w != 64) incomplete(S, "unsupported floating-point width");
  E x = toE(a, w), y = toE(b, w); E r; bool unord = pred >= CmpInst::FCMP_UNO && pred <= CmpInst::FCMP_TRUE; E uno = mkBin(K::FUno, x, y);
  switch (pred) {
    case CmpInst::FCMP_FALSE: return Val(0); case CmpInst::FCMP_TRUE: return Val(1); case CmpInst::FCMP_ORD: return fromE(mkNot1(uno)); case CmpInst::FCMP_UNO: return fromE(uno);
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = mkBin(K::FEq, x, y); break;
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = mkNot1(mkBin(K::FEq, x, y)); if (pred == CmpInst::FCMP_ONE) r = mkAnd1(r, mkNot1(uno)); break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = mkBin(K::FLt, x, y); break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = mkBin(K::FLe, x, y); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = mkBin(K::FLt, y, x); break;
    default: r = mkBin(K::FLe, y, x); break;
  }
  if (unord) r = mkOr1(r, uno);
  return fromE(r);
}
static Val castop(State& S, unsigned op, const Val& a, unsigned sw, unsigned w) {
  switch (op) {
    case Instruction::Trunc: if (!a.e && sw <= 64) return Val(a.c & mk64(w)); return fromE(mkExtract(toE(a, sw), 0, w));
    case Instruction::ZExt: if (!a.e && w <= 64) return a; return fromE(mkZExt(toE(a, sw), w));
    case Instruction::SExt: if (!a.e && w <= 64) return Val((uint64_t)sextw(a.c, sw) & mk64(w)); return fromE(mkSExt(toE(a, sw), w));
    case Instruction::PtrToInt: if (w < 64) return castop(S, Instruction::Trunc, a, 64, w); return a;
    case Instruction::IntToPtr: if (sw < 64) return castop(S, Instruction::ZExt, a, sw, 64); return a;
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::SIToFP: if (w > 64) break; return fromE(mkFUn(K::FFromS, toE(a, sw), w));
    case Instruction::UIToFP: if (w > 64) break; return fromE(mkFUn(K::FFromU, toE(a, sw), w));
    case Instruction::FPToSI: if (sw > 64) break; return fromE(mkFUn(K::FToS, toE(a, sw), w));
    case Instruction::FPToUI: if (sw > 64) break; return fromE(mkFUn(K::FToU, toE(a, sw), w));
    case Instruction::FPExt: case Instruction::FPTrunc: if (w > 64 || sw > 64) break; return fromE(mkFUn(K::FConv, toE(a, sw), w));
    default: break;
  }
  incomplete(S, "unsupported cast");
}
static bool intrinsic(State& S, Frame& f, const DI& d, const std::vector<Val>& a);

static void doCall(State& S, const DI& d) {
  Frame& f = top(S);
  if (d.flag) { // inline asm: only empty barriers are allowed
    auto* c = cast<CallBase>(d.I); if (auto* ia = dyn_cast<InlineAsm>(c->getCalledOperand())) if (ia->getAsmString().empty()) { finishCall(S); return; }
    incomplete(S, "inline assembly");
  }
  Fn* cal = d.callee; size_t nargs = d.argStart.back();
  if (!cal) {
    uint64_t p = concretize(S, get(f, d.ops.back()), 64); cal = fnAt(p);
    if (!cal) { if (p < 0x100000000ull) violation(S, "call through a null function pointer"); checkObj(S, p, 0, false); violation(S, "call through an invalid function pointer"); }
  }
  std::vector<Val> args; args.reserve(nargs); for (size_t i = 0; i < nargs; i++) args.push_back(get(f, d.ops[i]));
  if (cal->bi) {
    BCtx c{S, d, args, Val(), false}; BRes r = cal->bi(c);
    if (r == BDone) { Frame& g = top(S); if (d.dst >= 0) { g.r[d.dst] = c.ret; if (d.nslots > 1) for (int i = 1; i < d.nslots; i++) g.r[d.dst + i] = Val(); } finishCall(S); }
    return;
  }
  if (cal->F->isIntrinsic()) { if (!intrinsic(S, f, d, args)) incomplete(S, "unsupported intrinsic " + cal->name); finishCall(S); return; }
  for (size_t i = 0; i < d.byval.size(); i++) if (d.byval[i]) {
    std::vector<Val> bytes; readBytes(S, args[d.argStart[i]], d.byval[i], bytes, true); uint64_t p = allocObj(S, d.byval[i], OStack, false, "byval"); writeBytes(S, Val(p), bytes); args[d.argStart[i]] = Val(p); }
  pushCall(S, cal, args, d.dst, d.nslots);
}
static Val minmax(const Val& a, const Val& b, unsigned w, unsigned pred) { Val c = icmp(pred, a, b, w); if (!c.e) return c.c ? a : b; return fromE(mkIte(c.e, toE(a, w), toE(b, w))); }
static void copyMem(State& S, const Val& dst, const Val& src, const Val& len) { uint64_t n = concretize(S, len, 64); if (!n) return; std::vector<Val> b; readBytes(S, src, n, b, true); writeBytes(S, dst, b); }
static bool intrinsic(State& S, Frame& f, const DI& d, const std::vector<Val>& a) {
  auto set = [&](Val v, int i = 0) { if (d.dst >= 0) f.r[d.dst + i] = v; };
  unsigned w = d.w;
  switch (d.callee->F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(S, a[2], 64); copyMem(S, a[0], a[1], Val(n)); return true; }
    case Intrinsic::memset: { uint64_t n = concretize(S, a[2], 64); uint64_t p = concretize(S, a[0], 64); std::vector<Val> b(n, a[1]); writeBytes(S, Val(p), b); return true; }
    case Intrinsic::lifetime_start: { uint64_t p = a[1].c; Obj* o = S.heap.get(p >> 32); if (o && !o->freed && o->kind == OStack) { o = S.heap.mut(p >> 32); if (!o->un) o->un = (uint8_t*)malloc(o->size + 1); memset(o->un, 1, o->size); if (o->s) { free(o->s); o->s = nullptr; } if (o->sh) { free(o->sh); o->sh = nullptr; } } return true; }
    case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::invariant_end: return true;
    case Intrinsic::invariant_start: set(Val((uint64_t)0)); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address: set(a[0]); return true;
    case Intrinsic::is_constant: set(Val((uint64_t)0)); return true;
    case Intrinsic::objectsize: set(Val(mk64(w))); return true;
    case Intrinsic::umin: set(minmax(a[0], a[1], w, CmpInst::ICMP_ULT)); return true;
    case Intrinsic::umax: set(minmax(a[0], a[1], w, CmpInst::ICMP_UGT)); return true;
    case Intrinsic::smin: set(minmax(a[0], a[1], w, CmpInst::ICMP_SLT)); return true;
    case Intrinsic::smax: set(minmax(a[0], a[1], w, CmpInst::ICMP_SGT)); return true;
    case Intrinsic::abs: { Val c = icmp(CmpInst::ICMP_SLT, a[0], Val(0), w); Val n = binop(S, Instruction::Sub, Val(0), a[0], w); set(c.e ? fromE(mkIte(c.e, toE(n, w), toE(a[0], w))) : c.c ? n : a[0]); return true; }
    case Intrinsic::bswap: { E e = toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(e, i * 8, 8); r = r ? mkConcat(r, b) : b; } set(fromE(r)); return true; }
    case Intrinsic::ctpop: { E e = toE(a[0], w), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(e, i, 1), w)); set(fromE(r)); return true; }
    case Intrinsic::ctlz: { E e = toE(a[0], w), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); set(fromE(r)); return true; }
    case Intrinsic::cttz: { E e = toE(a[0], w), r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); set(fromE(r)); return true; }
    case Intrinsic::fshl: { E e = mkConcat(toE(a[0], w), toE(a[1], w)); E sh = mkZExt(mkBin(K::URem, toE(a[2], w), mkConst(w, w)), 2 * w); set(fromE(mkExtract(mkBin(K::Shl, e, sh), w, w))); return true; }
    case Intrinsic::fshr: { E e = mkConcat(toE(a[0], w), toE(a[1], w)); E sh = mkZExt(mkBin(K::URem, toE(a[2], w), mkConst(w, w)), 2 * w); set(fromE(mkExtract(mkBin(K::LShr, e, sh), 0, w))); return true; }
    case Intrinsic::usub_sat: { Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1], w); Val n = binop(S, Instruction::Sub, a[0], a[1], w); set(c.e ? fromE(mkIte(c.e, mkConst(0, w), toE(n, w))) : c.c ? Val((uint64_t)0) : n); return true; }
    case Intrinsic::uadd_sat: { Val n = binop(S, Instruction::Add, a[0], a[1], w); Val c = icmp(CmpInst::ICMP_ULT, n, a[0], w); set(c.e ? fromE(mkIte(c.e, mkConst(mk64(w), w), toE(n, w))) : c.c ? Val(mk64(w)) : n); return true; }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      unsigned id = d.callee->F->getIntrinsicID(); unsigned ww = d.opw[0]; E x = toE(a[0], ww), y = toE(a[1], ww); unsigned x2 = ww * 2 > 128 ? 128 : ww * 2; bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
      E X = sg ? mkSExt(x, x2) : mkZExt(x, x2), Y = sg ? mkSExt(y, x2) : mkZExt(y, x2); K k = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? K::Mul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? K::Add : K::Sub;
      E r = mkBin(k, X, Y); E lo = mkExtract(r, 0, ww); E ov = mkNot1(mkEq(r, sg ? mkSExt(lo, x2) : mkZExt(lo, x2))); set(fromE(lo), 0); set(fromE(ov), 1); return true; }
    case Intrinsic::fabs: set(fromE(mkBin(K::And, toE(a[0], w), mkConst(maskw(w) >> 1, w)))); return true;
    case Intrinsic::eh_typeid_for: set(Val(a[0].c ? a[0].c >> 32 : 0x3fffffff)); return true;
    case Intrinsic::stacksave: set(Val((uint64_t)0)); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::vastart: {
      uint64_t n = f.va.size(); uint64_t area = allocObj(S, n * 8 + 8, OStack, true, "varargs"); for (uint64_t i = 0; i < n; i++) store(S, Val(area + 8 * i), f.va[i], f.va[i].e && f.va[i].e->w < 64 ? f.va[i].e->w : 64);
      uint64_t p = concretize(S, a[0], 64); store(S, Val(p), Val(48), 32); store(S, Val(p + 4), Val(304), 32); store(S, Val(p + 8), Val(area), 64); store(S, Val(p + 16), Val(0), 64); return true; }
    case Intrinsic::vaend: return true;
    case Intrinsic::vacopy: copyMem(S, a[0], a[1], Val(24)); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation(S, "trap"); 
    default: { Val out; if (!mathIntrinsic(d.callee->name, S, a, d, out)) return false; set(out); return true; }
  }
}
std::string stackTrace(State& S) {
  std::string s; Thr& t = S.th[S.cur]; int n = 0;
  for (int i = (int)t.st.size() - 1; i >= 0 && n < 24; i--, n++) { s += (n ? " < " : ""); s += where(t.st[i].fn->code[t.st[i].pc].I); }
  return s;
}
bool timeUp(); void shareWork(); extern bool gCheckTime;
// Executes until the path ends (throws PathEnd).
void execute(State& S) {
  for (;;) {
    if (S.steps >= gCfg.maxSteps) violation(S, "no termination within " + std::to_string(gCfg.maxSteps) + " instructions");
    if (S.needPick) { pickNext(S, S.needPick != 2 && enabledT(S, S.cur), S.needPick == 3); }
    S.steps++; gTotalSteps++;
    if ((!(gTotalSteps & 0x3fff) || gCheckTime) && (gCheckTime = false, shareWork(), timeUp())) incomplete(S, "time limit");
    Frame& f = top(S); const DI& d = f.fn->code[f.pc];
    switch (d.op) {
      case Instruction::Ret: doReturn(S, d); break;
      case Instruction::Br: if (d.ops.empty()) branchTo(S, f, d.tgt[0]); else { Val c = get(f, d.ops[0]); bool b = c.e ? decide(S, c.e) : (c.c & 1); branchTo(S, f, d.tgt[b ? 0 : 1]); } break;
      case Instruction::Switch: {
        Val v = get(f, d.ops[0]); unsigned w = d.opw[0]; int to = d.tgt[0];
        if (!v.e) { for (auto& c : d.cases) if ((c.first & mk64(w)) == v.c) { to = c.second; break; } }
        else for (auto& c : d.cases) if (decide(S, mkEq(v.e, mkConst(c.first, w)))) { to = c.second; break; }
        branchTo(S, f, to); break; }
      case Instruction::Call: case Instruction::Invoke: doCall(S, d); break;
      case Instruction::Unreachable: violation(S, "unreachable code reached");
      case Instruction::Resume: doThrow(S, get(f, d.ops[0]).c, false); break;
      case Instruction::Alloca: { uint64_t n = concretize(S, get(f, d.ops[0]), 64); uint64_t p = allocObj(S, d.imm * n, OStack, false, nullptr); f.allocas.push_back(p >> 32); f.r[d.dst] = Val(p); f.pc++; break; }
      case Instruction::Load: {
        if (d.flag) incomplete(S, "vector load");
        if (d.atomic && S.mt) { if (!f.fn->quietAtomic && !schedPoint(S)) break; uint64_t p = concretize(S, get(f, d.ops[0]), 64); syncAcq(S, p); Val v = load(S, Val(p), d.w, true); Frame& g = top(S); g.r[d.dst] = v; g.pc++; if (!f.fn->quietAtomic) visDone(S); break; }
        Val a = get(f, d.ops[0]);
        if (d.segs.size() == 1) { Val v = load(S, a, std::get<2>(d.segs[0])); f.r[d.dst] = v; }
        else for (auto& s : d.segs) { Val v = load(S, binop(S, Instruction::Add, a, Val(std::get<1>(s)), 64), std::get<2>(s)); f.r[d.dst + std::get<0>(s)] = v; }
        f.pc++; break; }
      case Instruction::Store: {
        if (d.flag) incomplete(S, "vector store");
        if (d.atomic && S.mt) { if (!f.fn->quietAtomic && !schedPoint(S)) break; uint64_t p = concretize(S, get(f, d.ops[0]), 64); syncAcq(S, p); store(S, Val(p), get(f, d.ops[1]), std::get<2>(d.segs[0]), true); syncRel(S, p); top(S).pc++; if (!f.fn->quietAtomic) visDone(S); break; }
        Val a = get(f, d.ops[0]);
        if (d.segs.size() == 1) store(S, a, get(f, d.ops[1]), std::get<2>(d.segs[0]));
        else { uint64_t p = concretize(S, a, 64); int k = 1; for (auto& s : d.segs) store(S, Val(p + std::get<1>(s)), get(f, d.ops[k++]), std::get<2>(s)); }
        f.pc++; break; }
      case Instruction::GetElementPtr: {
        Val p = get(f, d.ops[0]); int64_t off = d.off; E sym = nullptr;
        for (auto& g : d.gep) { Val ix = get(f, d.ops[g.first]); unsigned iw = d.opw[g.first];
          if (!ix.e) off += (int64_t)sextw(ix.c, iw) * g.second; else { E t = mkBin(K::Mul, mkSExt(ix.e, 64), mkConst((u128)(s128)g.second, 64)); sym = sym ? mkAdd(sym, t) : t; } }
        if (!p.e && !sym) f.r[d.dst] = Val(p.c + off);
        else { E e = toE(p, 64); if (sym) e = mkAdd(sym, e); f.r[d.dst] = fromE(mkAdd(e, mkConst((u128)(s128)off, 64))); }
        f.pc++; break; }
      case Instruction::ICmp: f.r[d.dst] = icmp(d.pred, get(f, d.ops[0]), get(f, d.ops[1]), d.w2); f.pc++; break;
      case Instruction::FCmp: f.r[d.dst] = fcmp(S, d.pred, get(f, d.ops[0]), get(f, d.ops[1]), d.w2); f.pc++; break;
      case Instruction::Select: {
        Val c = get(f, d.ops[0]);
        if (!c.e || d.nslots != 1 || d.isPtr) { bool b = c.e ? decide(S, c.e) : (c.c & 1); for (int i = 0; i < d.nslots; i++) f.r[d.dst + i] = get(f, d.ops[1 + (b ? 0 : d.nslots) + i]); }
        else { Val a = get(f, d.ops[1]), b = get(f, d.ops[2]); f.r[d.dst] = fromE(mkIte(c.e, toE(a, d.w), toE(b, d.w))); }
        f.pc++; break; }
      case Instruction::ExtractValue: case Instruction::InsertValue: for (int i = 0; i < d.nslots; i++) f.r[d.dst + i] = get(f, d.ops[i]); f.pc++; break;
      case Instruction::Freeze: for (int i = 0; i < d.nslots; i++) f.r[d.dst + i] = get(f, d.ops[i]); f.pc++; break;
      case Instruction::FNeg: f.r[d.dst] = fromE(mkBin(K::Xor, toE(get(f, d.ops[0]), d.w), mkConst((u128)1 << (d.w - 1), d.w))); f.pc++; break;
      case Instruction::Fence: if (S.mt) { syncAcq(S, 1); syncRel(S, 1); } f.pc++; break;
      case Instruction::AtomicRMW: {
        if (S.mt && !f.fn->quietAtomic && !schedPoint(S)) break;
        Frame& g = top(S); auto* r = cast<AtomicRMWInst>(d.I); uint64_t p = concretize(S, get(g, d.ops[0]), 64); Val x = get(g, d.ops[1]); syncAcq(S, p); Val o = load(S, Val(p), d.w, true); Val n;
        switch (r->getOperation()) { case AtomicRMWInst::Xchg: n = x; break; case AtomicRMWInst::Add: n = binop(S, Instruction::Add, o, x, d.w); break; case AtomicRMWInst::Sub: n = binop(S, Instruction::Sub, o, x, d.w); break; case AtomicRMWInst::Or: n = binop(S, Instruction::Or, o, x, d.w); break; case AtomicRMWInst::And: n = binop(S, Instruction::And, o, x, d.w); break; case AtomicRMWInst::Xor: n = binop(S, Instruction::Xor, o, x, d.w); break; default: incomplete(S, "atomic operation"); }
        store(S, Val(p), n, d.w, true); syncRel(S, p); g.r[d.dst] = o; g.pc++; if (!f.fn->quietAtomic) visDone(S); break; }
      case Instruction::AtomicCmpXchg: {
        if (S.mt && !f.fn->quietAtomic && !schedPoint(S)) break;
        Frame& g = top(S); unsigned w = d.opw[1]; uint64_t p = concretize(S, get(g, d.ops[0]), 64); syncAcq(S, p); Val o = load(S, Val(p), w, true); Val c = icmp(CmpInst::ICMP_EQ, o, get(g, d.ops[1]), w); bool eq = c.e ? decide(S, c.e) : c.c;
        if (eq) store(S, Val(p), get(g, d.ops[2]), w, true); syncRel(S, p); g.r[d.dst] = o; g.r[d.dst + 1] = Val(eq); g.pc++; if (!f.fn->quietAtomic) visDone(S); break; }
      case 0: incomplete(S, "vector instruction");
      default:
        if (d.I->isBinaryOp()) { if (d.op >= Instruction::Add && (d.w != 80)) { f.r[d.dst] = binop(S, d.op, get(f, d.ops[0]), get(f, d.ops[1]), d.w); f.pc++; break; } incomplete(S, "unsupported arithmetic"); }
        if (d.I->isCast()) { f.r[d.dst] = castop(S, d.op, get(f, d.ops[0]), d.opw[0], d.w); f.pc++; break; }
        incomplete(S, std::string("unsupported instruction ") + d.I->getOpcodeName());
    }
  }
}
