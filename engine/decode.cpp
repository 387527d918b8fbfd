#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/IntrinsicInst.h>
using namespace llvm;
extern std::unordered_map<const GlobalValue*, uint64_t> gAddr;
std::unordered_map<const Function*, Fn*> gFnOf;

unsigned bitsOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}
void leaves(Type* t, std::vector<std::tuple<uint64_t, unsigned>>& out, uint64_t off) {   // (byte offset, width)
  const DataLayout& DL = gM->getDataLayout();
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), out, off + L->getElementOffset(i)); }
  else if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), out, off + i * es); }
  else if (!t->isVoidTy()) out.push_back({off, bitsOf(t)});
}
int nslots(Type* t) { if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy()) return 0; std::vector<std::tuple<uint64_t, unsigned>> v; leaves(t, v, 0); return v.size(); }

Val constVal(const Constant* c);
static uint64_t constAddrExpr(const ConstantExpr* ce) {
  const DataLayout& DL = gM->getDataLayout();
  switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(DL, off)) report_fatal_error("const gep"); return constVal(ce->getOperand(0)).c + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0)).c;
    case Instruction::Add: return constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c;
    case Instruction::Sub: return constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c;
    case Instruction::Trunc: return constVal(ce->getOperand(0)).c & (uint64_t)maskw(bitsOf(ce->getType()));
    case Instruction::ICmp: { uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; } break; }
    default: break;
  }
  std::string s; raw_string_ostream os(s); ce->print(os); fprintf(stderr, "unsupported constant expression %s\n", s.c_str()); exit(3);
}
Val constVal(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue()); const APInt& a = ci->getValue(); u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return Val(0, mkConst(v, ci->getBitWidth())); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() <= 64) return Val(b.getZExtValue()); u128 v = b.getRawData()[0]; if (b.getNumWords() > 1) v |= (u128)b.getRawData()[1] << 64; return Val(0, mkConst(v, b.getBitWidth())); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return Val((uint64_t)0);
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
    auto it = gAddr.find(gv); if (it == gAddr.end()) { fprintf(stderr, "no address for %s\n", gv->getName().str().c_str()); exit(3); } return Val(it->second); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) return Val(constAddrExpr(ce));
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", s.c_str()); exit(3);
}
static void constLeaves(const Constant* c, Type* t, std::vector<Val>& out) {
  if (t->isStructTy() || t->isArrayTy()) {
    uint64_t n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) { Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); const Constant* e = c->getAggregateElement(i); constLeaves(e ? e : Constant::getNullValue(et), et, out); }
  } else out.push_back(constVal(c));
}
static bool supportedTy(Type* t) { if (t->isVectorTy()) return false; return true; }

struct Dec {
  Fn* f; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> blkIdx;
  void operand(DI& d, const Value* v) {
    d.argStart.push_back(d.ops.size());
    Type* t = v->getType();
    if (t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return;
    std::vector<std::tuple<uint64_t, unsigned>> L; leaves(t, L, 0);
    if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> vs; constLeaves(c, t, vs); for (size_t i = 0; i < vs.size(); i++) { d.ops.push_back({-1, vs[i]}); d.opw.push_back(std::get<1>(L[i])); } return; }
    auto it = slot.find(v); if (it == slot.end()) { fprintf(stderr, "no slot in %s\n", f->name.c_str()); exit(3); }
    for (size_t i = 0; i < L.size(); i++) { d.ops.push_back({it->second + (int)i, Val()}); d.opw.push_back(std::get<1>(L[i])); }
  }
};
void decodeFn(Fn* f) {
  Function* F = f->F; const DataLayout& DL = gM->getDataLayout();
  Dec D; D.f = f; int n = 0;
  for (auto& a : F->args()) { D.slot[&a] = n; f->argSlot.push_back(n); int k = nslots(a.getType()); f->argN.push_back(k); n += k; }
  int bi = 0;
  for (auto& B : *F) { D.blkIdx[&B] = bi++; for (auto& I : B) { int k = I.getType()->isTokenTy() ? 0 : nslots(I.getType()); if (k) { D.slot[&I] = n; n += k; } } }
  f->nregs = n;
  for (auto& B : *F) {
    Blk blk; blk.bb = &B; blk.first = f->code.size();
    for (auto& I : B) {
      if (auto* P = dyn_cast<PHINode>(&I)) {
        PhiD pd; pd.dst = D.slot[P]; pd.n = nslots(P->getType());
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { DI tmp; D.operand(tmp, P->getIncomingValue(i)); pd.in.push_back({D.blkIdx[P->getIncomingBlock(i)], tmp.ops}); }
        blk.phis.push_back(std::move(pd)); continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      DI d; d.I = &I; d.op = I.getOpcode(); d.w = bitsOf(I.getType()); d.isPtr = I.getType()->isPointerTy();
      auto si = D.slot.find(&I); d.dst = si == D.slot.end() ? -1 : si->second; d.nslots = I.getType()->isTokenTy() ? 0 : nslots(I.getType());
      switch (d.op) {
        case Instruction::Br: { auto* b = cast<BranchInst>(&I); if (b->isConditional()) { D.operand(d, b->getCondition()); } for (unsigned i = 0; i < b->getNumSuccessors(); i++) d.tgt.push_back(D.blkIdx[b->getSuccessor(i)]); break; }
        case Instruction::Switch: { auto* s = cast<SwitchInst>(&I); D.operand(d, s->getCondition()); d.tgt.push_back(D.blkIdx[s->getDefaultDest()]); for (auto& c : s->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), D.blkIdx[c.getCaseSuccessor()]}); break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto* c = cast<CallBase>(&I);
          if (auto* v = dyn_cast<InvokeInst>(c)) { d.tgt.push_back(D.blkIdx[v->getNormalDest()]); d.tgt.push_back(D.blkIdx[v->getUnwindDest()]); }
          Value* cv = c->getCalledOperand()->stripPointerCasts();
          if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = const_cast<Value*>(cast<Value>(ga->getAliaseeObject()));
          if (auto* cf = dyn_cast<Function>(cv)) d.callee = gFnOf[cf];
          else if (c->isInlineAsm()) { d.callee = nullptr; d.flag = true; }
          for (unsigned i = 0; i < c->arg_size(); i++) { d.byval.push_back(c->paramHasAttr(i, Attribute::ByVal) ? DL.getTypeAllocSize(c->getParamByValType(i)) : 0); D.operand(d, c->getArgOperand(i)); }
          d.argStart.push_back(d.ops.size());
          if (!d.callee && !d.flag) { DI t; D.operand(t, c->getCalledOperand()); d.ops.push_back(t.ops[0]); d.opw.push_back(64); }
          break; }
        case Instruction::Alloca: { auto* a = cast<AllocaInst>(&I); d.imm = DL.getTypeAllocSize(a->getAllocatedType()); D.operand(d, a->getArraySize()); break; }
        case Instruction::Load: case Instruction::Store: {
          Type* t; Value* p; if (auto* l = dyn_cast<LoadInst>(&I)) { t = l->getType(); p = l->getPointerOperand(); d.atomic = l->isAtomic(); } else { auto* s = cast<StoreInst>(&I); t = s->getValueOperand()->getType(); p = s->getPointerOperand(); d.atomic = s->isAtomic(); }
          D.operand(d, p); if (d.op == Instruction::Store) D.operand(d, I.getOperand(0));
          std::vector<std::tuple<uint64_t, unsigned>> L; leaves(t, L, 0); int k = 0; for (auto& l : L) d.segs.push_back({k++, std::get<0>(l), (int)std::get<1>(l)});
          d.flag = !supportedTy(t); break; }
        case Instruction::GetElementPtr: {
          auto* g = cast<GetElementPtrInst>(&I); D.operand(d, g->getPointerOperand()); d.off = 0;
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            if (StructType* st = it.getStructTypeOrNull()) d.off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
            else { int64_t sc = DL.getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(it.getOperand())) d.off += ci->getSExtValue() * sc; else { int k = d.ops.size(); D.operand(d, it.getOperand()); d.gep.push_back({k, sc}); } }
          } break; }
        case Instruction::ICmp: case Instruction::FCmp: d.pred = cast<CmpInst>(&I)->getPredicate(); for (auto& o : I.operands()) D.operand(d, o); d.w2 = bitsOf(I.getOperand(0)->getType()); break;
        case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(&I); DI t; D.operand(t, e->getAggregateOperand()); int start = 0; Type* ty = e->getAggregateOperand()->getType(); for (unsigned ix : e->indices()) { for (unsigned i = 0; i < ix; i++) start += nslots(ty->isStructTy() ? ty->getStructElementType(i) : ty->getArrayElementType()); ty = ty->isStructTy() ? ty->getStructElementType(ix) : ty->getArrayElementType(); }
          for (int i = 0; i < d.nslots; i++) d.ops.push_back(t.ops[start + i]); break; }
        case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(&I); DI t, u; D.operand(t, e->getAggregateOperand()); D.operand(u, e->getInsertedValueOperand()); int start = 0; Type* ty = e->getType(); for (unsigned ix : e->indices()) { for (unsigned i = 0; i < ix; i++) start += nslots(ty->isStructTy() ? ty->getStructElementType(i) : ty->getArrayElementType()); ty = ty->isStructTy() ? ty->getStructElementType(ix) : ty->getArrayElementType(); }
          for (size_t i = 0; i < u.ops.size(); i++) t.ops[start + i] = u.ops[i]; d.ops = t.ops; break; }
        case Instruction::LandingPad: { auto* l = cast<LandingPadInst>(&I); d.flag = l->isCleanup(); for (unsigned i = 0; i < l->getNumClauses(); i++) { if (l->isCatch(i)) { D.operand(d, l->getClause(i)); d.cases.push_back({0, (int)d.ops.size() - 1}); } else { d.cases.push_back({1, -1}); } } break; }
        default: for (auto& o : I.operands()) D.operand(d, o); if (I.getNumOperands()) d.w2 = bitsOf(I.getOperand(0)->getType()); break;
      }
      for (auto& o : I.operands()) if (!supportedTy(o->getType())) d.op = 0;
      if (!supportedTy(I.getType())) d.op = 0;
      f->code.push_back(std::move(d));
    }
    f->blks.push_back(std::move(blk));
  }
  f->decoded = true;
}
