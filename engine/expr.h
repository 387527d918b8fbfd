// Hash-consed bit-vector expressions (width 1..128) with constant folding.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum class K : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Ite, Concat, Extract, ZExt, SExt,
  // floating point on the IEEE bit pattern (width 32 or 64)
  FEq, FLt, FLe, FUno, FAdd, FSub, FMul, FDiv, FFromS, FFromU, FToS, FToU, FConv
};

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
  K k; uint16_t w; bool fp; bool uninit;
  uint32_t id;
  u128 c;                       // Const: value; Var: variable id; Extract: low bit
  const Expr *a, *b, *d;
  mutable const VarSet* vars;
  mutable void* z3ast;
  mutable u128 evVal; mutable uint64_t evEpoch;
};
typedef const Expr* E;

struct VarInfo { std::string name; uint16_t w; bool uninit; };
extern std::vector<VarInfo> gVars;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1); v &= maskw(w);
  return (s128)((v ^ m) - m);
}

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool uninit = false);
E mkBin(K k, E a, E b);          // arithmetic/logic/comparison
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkFUn(K k, E a, unsigned w);   // FFromS/FFromU/FToS/FToU/FConv
E mkNot1(E a);                   // boolean negation (width 1)
const VarSet* varsOf(E e);
bool evalConstBin(K k, u128 a, u128 b, unsigned w, u128& r);
std::string toStr(E e, int depth = 6);
size_t numExprs();

// Variable assignment; unassigned variables read as 0.
struct Model {
  std::vector<uint64_t> v;
  uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
  void set(uint32_t i, uint64_t x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; }
};
u128 evalExpr(E e, const Model& m);   // starts a new evaluation epoch
E trueE(); E falseE();
E mkAnd1(E a, E b);
E mkOr1(E a, E b);
E eqConst(E a, u128 v);
E mkBool(bool b);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkAdd(E a, E b);
E mkSub(E a, E b);
