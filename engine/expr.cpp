#include "expr.h"
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <cmath>
#include <algorithm>

std::vector<VarInfo> gVars;
static uint32_t gNext = 0;
size_t numExprs() { return gNext; }

struct EHash { size_t operator()(const Expr* e) const {
  uint64_t h = (uint64_t)e->k * 0x9E3779B97F4A7C15ull + e->w;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
  mix((uint64_t)e->c); mix((uint64_t)(e->c >> 64));
  mix(e->a ? e->a->id + 1 : 0); mix(e->b ? e->b->id + 1 : 0); mix(e->d ? e->d->id + 1 : 0);
  return h; } };
struct EEq { bool operator()(const Expr* x, const Expr* y) const {
  return x->k == y->k && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
static std::unordered_set<const Expr*, EHash, EEq>& table() { static auto* t = new std::unordered_set<const Expr*, EHash, EEq>(1 << 16); return *t; }

static E mk(K k, unsigned w, u128 c, E a = nullptr, E b = nullptr, E d = nullptr) {
  Expr t; t.k = k; t.w = w; t.c = c; t.a = a; t.b = b; t.d = d;
  auto it = table().find(&t);
  if (it != table().end()) return *it;
  Expr* n = new Expr(t);
  n->fp = (k >= K::FEq) || (a && a->fp) || (b && b->fp) || (d && d->fp);
  n->uninit = (k == K::Var ? gVars[(uint32_t)c].uninit : false) || (a && a->uninit) || (b && b->uninit) || (d && d->uninit);
  n->id = gNext++; n->vars = nullptr; n->z3ast = nullptr; n->evVal = 0; n->evEpoch = 0;
  table().insert(n);
  return n;
}
E mkConst(u128 v, unsigned w) { return mk(K::Const, w, v & maskw(w)); }
E trueE() { static E t = mkConst(1, 1); return t; }
E falseE() { static E t = mkConst(0, 1); return t; }
E mkBool(bool b) { return b ? trueE() : falseE(); }
E mkVar(const std::string& name, unsigned w, bool uninit) {
  uint32_t id = gVars.size(); gVars.push_back({name, (uint16_t)w, uninit});
  return mk(K::Var, w, id);
}
static inline double bd(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static inline float bf(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static inline u128 db(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static inline u128 fb(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

bool evalConstBin(K k, u128 a, u128 b, unsigned w, u128& r) {
  u128 m = maskw(w); a &= m; b &= m;
  switch (k) {
    case K::Add: r = (a + b) & m; return true;
    case K::Sub: r = (a - b) & m; return true;
    case K::Mul: r = (a * b) & m; return true;
    case K::UDiv: r = b ? (a / b) : m; return true;      // SMT-LIB semantics; engine checks zero first
    case K::URem: r = b ? (a % b) : a; return true;
    case K::SDiv: { s128 x = sextw(a, w), y = sextw(b, w); if (!y) r = (x < 0 ? 1 : m); else if (y == -1) r = (u128)(-x) & m; else r = (u128)(x / y) & m; return true; }
    case K::SRem: { s128 x = sextw(a, w), y = sextw(b, w); if (!y) r = a; else if (y == -1) r = 0; else r = (u128)(x % y) & m; return true; }
    case K::And: r = a & b; return true;
    case K::Or: r = a | b; return true;
    case K::Xor: r = a ^ b; return true;
    case K::Shl: r = b >= w ? 0 : (a << (unsigned)b) & m; return true;
    case K::LShr: r = b >= w ? 0 : a >> (unsigned)b; return true;
    case K::AShr: { s128 x = sextw(a, w); r = (u128)(b >= w ? (x < 0 ? -1 : 0) : (x >> (unsigned)b)) & m; return true; }
    case K::Eq: r = a == b; return true;
    case K::Ult: r = a < b; return true;
    case K::Ule: r = a <= b; return true;
    case K::Slt: r = sextw(a, w) < sextw(b, w); return true;
    case K::Sle: r = sextw(a, w) <= sextw(b, w); return true;
    case K::FEq: r = w == 64 ? bd(a) == bd(b) : bf(a) == bf(b); return true;
    case K::FLt: r = w == 64 ? bd(a) < bd(b) : bf(a) < bf(b); return true;
    case K::FLe: r = w == 64 ? bd(a) <= bd(b) : bf(a) <= bf(b); return true;
    case K::FUno: r = w == 64 ? (std::isnan(bd(a)) || std::isnan(bd(b))) : (std::isnan(bf(a)) || std::isnan(bf(b))); return true;
    case K::FAdd: r = w == 64 ? db(bd(a) + bd(b)) : fb(bf(a) + bf(b)); return true;
    case K::FSub: r = w == 64 ? db(bd(a) - bd(b)) : fb(bf(a) - bf(b)); return true;
    case K::FMul: r = w == 64 ? db(bd(a) * bd(b)) : fb(bf(a) * bf(b)); return true;
    case K::FDiv: r = w == 64 ? db(bd(a) / bd(b)) : fb(bf(a) / bf(b)); return true;
    default: return false;
  }
}
static u128 evalFUn(K k, u128 a, unsigned aw, unsigned w) {
  switch (k) {
    case K::FFromS: { s128 x = sextw(a, aw); return w == 64 ? db((double)x) : fb((float)x); }
    case K::FFromU: return w == 64 ? db((double)a) : fb((float)a);
    case K::FToS: { double d = aw == 64 ? bd(a) : bf(a); if (!(d > -1.7e38 && d < 1.7e38)) return 0; return (u128)(s128)d & maskw(w); }
    case K::FToU: { double d = aw == 64 ? bd(a) : bf(a); if (!(d > -1.0 && d < 3.4e38)) return 0; return (u128)d & maskw(w); }
    case K::FConv: return w == 64 ? db((double)bf(a)) : fb((float)bd(a));
    default: return 0;
  }
}
static bool isCmp(K k) { return k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle || (k >= K::FEq && k <= K::FUno); }
static bool isComm(K k) { return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq; }
E mkNot1(E a) {
  if (a->k == K::Const) return mkBool(!a->c);
  return mkBin(K::Xor, a, trueE());
}
static bool isNot(E e) { return e->w == 1 && e->k == K::Xor && e->b->k == K::Const && e->b->c == 1; }
E mkAnd1(E a, E b) { return mkBin(K::And, a, b); }
E mkOr1(E a, E b) { return mkBin(K::Or, a, b); }
E mkEq(E a, E b) { return mkBin(K::Eq, a, b); }
E mkUlt(E a, E b) { return mkBin(K::Ult, a, b); }
E mkUle(E a, E b) { return mkBin(K::Ule, a, b); }
E mkAdd(E a, E b) { return mkBin(K::Add, a, b); }
E mkSub(E a, E b) { return mkBin(K::Sub, a, b); }
E eqConst(E a, u128 v) { return mkBin(K::Eq, a, mkConst(v, a->w)); }

// cheap unsigned bounds of an expression
static void bounds(E e, u128& lo, u128& hi, int depth) {
  lo = 0; hi = maskw(e->w); if (depth == 0) return; u128 l1, h1, l2, h2;
  switch (e->k) {
    case K::Const: lo = hi = e->c; break;
    case K::ZExt: bounds(e->a, lo, hi, depth - 1); break;
    case K::Ite: bounds(e->b, l1, h1, depth - 1); bounds(e->d, l2, h2, depth - 1); lo = l1 < l2 ? l1 : l2; hi = h1 > h2 ? h1 : h2; break;
    case K::Add: bounds(e->a, l1, h1, depth - 1); bounds(e->b, l2, h2, depth - 1); if (e->w < 128 && h1 + h2 <= maskw(e->w)) { lo = l1 + l2; hi = h1 + h2; } break;
    case K::And: if (e->b->k == K::Const) hi = e->b->c; break;
    case K::URem: if (e->b->k == K::Const && e->b->c) hi = e->b->c - 1; break;
    case K::LShr: if (e->b->k == K::Const && e->b->c < e->w) hi = maskw(e->w) >> (unsigned)e->b->c; break;
    case K::UDiv: if (e->b->k == K::Const && e->b->c) hi = maskw(e->w) / e->b->c; break;
    default: break; }
}
E mkBin(K k, E a, E b) {
  unsigned w = a->w;
  if ((k == K::Eq || k == K::Ult || k == K::Ule) && w > 1 && !a->fp && !b->fp && (a->k == K::Const) != (b->k == K::Const)) {
    u128 l1, h1, l2, h2; bounds(a, l1, h1, 5); bounds(b, l2, h2, 5);
    if (k == K::Eq && (h1 < l2 || h2 < l1)) return mkBool(false);
    if (k == K::Ult) { if (h1 < l2) return mkBool(true); if (l1 >= h2) return mkBool(false); }
    if (k == K::Ule) { if (h1 <= l2) return mkBool(true); if (l1 > h2) return mkBool(false); }
  }
  unsigned rw = isCmp(k) ? 1 : w;
  if (a->k == K::Const && b->k == K::Const) { u128 r; if (evalConstBin(k, a->c, b->c, w, r)) return mkConst(r, rw); }
  if (isComm(k) && a->k == K::Const) std::swap(a, b);          // constant on the right
  else if (isComm(k) && b->k != K::Const && a->id > b->id) std::swap(a, b);
  bool bc = b->k == K::Const; u128 m = maskw(w);
  switch (k) {
    case K::Add:
      if (bc && b->c == 0) return a;
      if (bc && a->k == K::Add && a->b->k == K::Const) return mkBin(K::Add, a->a, mkConst(a->b->c + b->c, w));
      if (!bc && b->k == K::Add && b->b->k == K::Const) return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
      if (!bc && a->k == K::Add && a->b->k == K::Const) return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
      if (w == 1) return mkBin(K::Xor, a, b);
      break;
    case K::Sub:
      if (a == b) return mkConst(0, w);
      if (bc) return mkBin(K::Add, a, mkConst((~b->c + 1) & m, w));
      if (a->k == K::Add && a->b->k == K::Const && b->k != K::Const) {
        if (a->a == b) return a->b;
        if (b->k == K::Add && b->b->k == K::Const) { if (b->a == a->a) return mkConst(a->b->c - b->b->c, w); return mkBin(K::Add, mkBin(K::Sub, a->a, b->a), mkConst(a->b->c - b->b->c, w)); }
        return mkBin(K::Add, mkBin(K::Sub, a->a, b), a->b);
      }
      if (b->k == K::Add && b->b->k == K::Const) { if (b->a == a) return mkConst(~b->b->c + 1, w); if (a->k != K::Const) return mkBin(K::Add, mkBin(K::Sub, a, b->a), mkConst((~b->b->c + 1) & m, w)); }
      if (a->k == K::Add && (a->a == b)) return a->b;
      if (a->k == K::Add && (a->b == b)) return a->a;
      break;
    case K::Mul:
      if (bc && b->c == 0) return b;
      if (bc && b->c == 1) return a;
      if (bc && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != b->c) s++; return mkBin(K::Shl, a, mkConst(s, w)); }
      if (bc) for (unsigned s = 2; s < w; s++) for (unsigned t = 0; t < s; t++) if (b->c == (((u128)1 << s) - ((u128)1 << t)) && s - t > 2) return mkBin(K::Sub, mkBin(K::Shl, a, mkConst(s, w)), mkBin(K::Shl, a, mkConst(t, w)));   // a run of ones: one subtraction
      break;
    case K::UDiv: if (bc && b->c == 1) return a;
      if (bc && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != b->c) s++; return mkBin(K::LShr, a, mkConst(s, w)); }
      break;
    case K::URem:
      if (bc && b->c && (b->c & (b->c - 1)) == 0) return mkBin(K::And, a, mkConst(b->c - 1, w));
      break;
    case K::And:
      if (a == b) return a;
      if (bc && b->c == 0) return b;
      if (bc && b->c == m) return a;
      if (w == 1 && ((isNot(a) && a->a == b) || (isNot(b) && b->a == a))) return falseE();
      if (bc && a->k == K::And && a->b->k == K::Const) return mkBin(K::And, a->a, mkConst(a->b->c & b->c, w));
      if (bc && a->k == K::ZExt) { u128 im = maskw(a->a->w); if ((b->c & im) == im) return a; if ((b->c & im) == 0) return mkConst(0, w); return mkZExt(mkBin(K::And, a->a, mkConst(b->c & im, a->a->w)), w); }
      if (bc) { // low mask -> zext(extract)
        u128 c1 = b->c + 1; if ((c1 & b->c) == 0) { unsigned n = 0; while ((((u128)1 << n) - 1) != b->c) n++; return mkZExt(mkExtract(a, 0, n), w); }
      }
      break;
    case K::Or:
      if (a == b) return a;
      if (bc && b->c == 0) return a;
      if (bc && b->c == m) return b;
      if (w == 1 && ((isNot(a) && a->a == b) || (isNot(b) && b->a == a))) return trueE();
      // zext(x) | (zext(y) << n) -> concat, the usual byte-assembly idiom
      for (int sw = 0; sw < 2; sw++) { E x = sw ? b : a, y = sw ? a : b;
        if (y->k == K::Concat && y->b->k == K::Const && y->b->c == 0 && x->k == K::ZExt && x->a->w <= y->b->w)
          return mkConcat(y->a, mkZExt(x->a, y->b->w));
        if (y->k == K::Concat && y->b->k == K::Const && y->b->c == 0 && x->k == K::Concat && x->a->k == K::Const && x->a->c == 0 && x->b->w <= y->b->w)
          return mkConcat(y->a, mkZExt(x->b, y->b->w)); }
      break;
    case K::Xor:
      if (a == b) return mkConst(0, w);
      if (bc && b->c == 0) return a;
      if (bc && a->k == K::Xor && a->b->k == K::Const) return mkBin(K::Xor, a->a, mkConst(a->b->c ^ b->c, w));
      // push negation through comparisons
      if (w == 1 && bc && b->c == 1) {
        if (a->k == K::Ult) return mkBin(K::Ule, a->b, a->a);
        if (a->k == K::Ule) return mkBin(K::Ult, a->b, a->a);
        if (a->k == K::Slt) return mkBin(K::Sle, a->b, a->a);
        if (a->k == K::Sle) return mkBin(K::Slt, a->b, a->a);
      }
      break;
    case K::Shl:
      if (bc && b->c == 0) return a;
      if (bc && b->c >= w) return mkConst(0, w);
      if (bc) { unsigned s = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
      break;
    case K::LShr:
      if (bc && b->c == 0) return a;
      if (bc && b->c >= w) return mkConst(0, w);
      if (bc) { unsigned s = (unsigned)b->c; return mkZExt(mkExtract(a, s, w - s), w); }
      break;
    case K::AShr:
      if (bc && b->c == 0) return a;
      if (bc) { unsigned s = (unsigned)std::min<u128>(b->c, w - 1); return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case K::Eq:
      if (a == b) return trueE();
      if (w == 1) { if (bc) return b->c ? a : mkNot1(a); if (isNot(a) && isNot(b)) return mkBin(K::Eq, a->a, b->a); }
      if (bc) {
        u128 c = b->c;
        if (a->k == K::ZExt) { if (c > maskw(a->a->w)) return falseE(); return mkBin(K::Eq, a->a, mkConst(c, a->a->w)); }
        if (a->k == K::SExt) { u128 t = c & maskw(a->a->w); if (((u128)sextw(t, a->a->w) & m) != c) return falseE(); return mkBin(K::Eq, a->a, mkConst(t, a->a->w)); }
        if (a->k == K::Add && a->b->k == K::Const) return mkBin(K::Eq, a->a, mkConst(c - a->b->c, w));
        if (a->k == K::Xor && a->b->k == K::Const) return mkBin(K::Eq, a->a, mkConst(c ^ a->b->c, w));
        if (a->k == K::Sub && a->a->k == K::Const) return mkBin(K::Eq, a->b, mkConst(a->a->c - c, w));
        if (a->k == K::Sub && c == 0) return mkBin(K::Eq, a->a, a->b);
        if (a->k == K::Concat) { E l = mkBin(K::Eq, a->b, mkConst(c, a->b->w)); if (l->k == K::Const && !l->c) return l; E h = mkBin(K::Eq, a->a, mkConst(c >> a->b->w, a->a->w)); return mkBin(K::And, h, l); }
        if (a->k == K::Ite) {
          bool tc = a->b->k == K::Const, fc = a->d->k == K::Const;
          if (tc && fc) { bool t = a->b->c == c, f = a->d->c == c; if (t && f) return trueE(); if (t) return a->a; if (f) return mkNot1(a->a); return falseE(); }
          if (tc) { if (a->b->c == c) return mkBin(K::Or, a->a, mkBin(K::Eq, a->d, b)); return mkBin(K::And, mkNot1(a->a), mkBin(K::Eq, a->d, b)); }
          if (fc) { if (a->d->c == c) return mkBin(K::Or, mkNot1(a->a), mkBin(K::Eq, a->b, b)); return mkBin(K::And, a->a, mkBin(K::Eq, a->b, b)); }
        }
      } else {
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Eq, a->a, b->a);
        if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Eq, a->a, b->a);
        if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w) return mkBin(K::And, mkBin(K::Eq, a->a, b->a), mkBin(K::Eq, a->b, b->b));
        if (a->k == K::Add && b->k == K::Add && a->b == b->b) return mkBin(K::Eq, a->a, b->a);
      }
      break;
    case K::Ult:
      if (a == b) return falseE();
      if (bc && b->c == 0) return falseE();
      if (bc && b->c == 1) return mkBin(K::Eq, a, mkConst(0, w));
      if (a->k == K::Const && a->c == m) return falseE();
      if (a->k == K::Const && a->c == 0) return mkNot1(mkBin(K::Eq, b, mkConst(0, w)));
      if (w == 1) return mkBin(K::And, mkNot1(a), b);
      if (bc && a->k == K::ZExt) { if (b->c > maskw(a->a->w)) return trueE(); return mkBin(K::Ult, a->a, mkConst(b->c, a->a->w)); }
      if (a->k == K::Const && b->k == K::ZExt) { if (a->c >= maskw(b->a->w)) return falseE(); return mkBin(K::Ult, mkConst(a->c, b->a->w), b->a); }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ult, a->a, b->a);
      if (bc && a->k == K::Ite && a->b->k == K::Const && a->d->k == K::Const) { bool t = a->b->c < b->c, f = a->d->c < b->c; if (t && f) return trueE(); if (!t && !f) return falseE(); return t ? a->a : mkNot1(a->a); }
      break;
    case K::Ule:
      if (a == b) return trueE();
      if (bc && b->c == m) return trueE();
      if (a->k == K::Const && a->c == 0) return trueE();
      if (bc) return mkBin(K::Ult, a, mkConst(b->c + 1, w));
      if (a->k == K::Const) return mkBin(K::Ult, mkConst(a->c - 1, w), b);
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ule, a->a, b->a);
      break;
    case K::Slt:
      if (a == b) return falseE();
      if (bc && a->k == K::ZExt && a->a->w < w) { if (b->c >> (w - 1)) return falseE(); return mkBin(K::Ult, a, b); }
      if (a->k == K::Const && b->k == K::ZExt && b->a->w < w) { if (a->c >> (w - 1)) return trueE(); return mkBin(K::Ult, a, b); }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w < w && b->a->w < w) return mkBin(K::Ult, a, b);
      if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Slt, a->a, b->a);
      if (bc && a->k == K::Ite && a->b->k == K::Const && a->d->k == K::Const) { bool t = sextw(a->b->c, w) < sextw(b->c, w), f = sextw(a->d->c, w) < sextw(b->c, w); if (t && f) return trueE(); if (!t && !f) return falseE(); return t ? a->a : mkNot1(a->a); }
      if (a->k == K::Const && b->k == K::Ite && b->b->k == K::Const && b->d->k == K::Const) { bool t = sextw(a->c, w) < sextw(b->b->c, w), f = sextw(a->c, w) < sextw(b->d->c, w); if (t && f) return trueE(); if (!t && !f) return falseE(); return t ? b->a : mkNot1(b->a); }
      if (bc && b->c == 0 && a->k == K::Ite && (a->b->k == K::Const || a->d->k == K::Const)) return mkIte(a->a, mkBin(K::Slt, a->b, b), mkBin(K::Slt, a->d, b));
      break;
    case K::Sle:
      if (a == b) return trueE();
      if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Sle, a->a, b->a);
      if (bc) { if (b->c == (m >> 1)) return trueE(); return mkBin(K::Slt, a, mkConst(b->c + 1, w)); }
      if (a->k == K::Const) { if (a->c == ((u128)1 << (w - 1))) return trueE(); return mkBin(K::Slt, mkConst(a->c - 1, w), b); }
      break;
    default: break;
  }
  return mk(k, rw, 0, a, b);
}
E mkIte(E c, E a, E b) {
  if (c->k == K::Const) return c->c ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (a->k == K::Const && b->k == K::Const) return a->c ? c : mkNot1(c);
    if (a->k == K::Const) return a->c ? mkOr1(c, b) : mkAnd1(mkNot1(c), b);
    if (b->k == K::Const) return b->c ? mkOr1(mkNot1(c), a) : mkAnd1(c, a);
  }
  if (b->k == K::Ite && b->a == c) b = b->d;
  if (a->k == K::Ite && a->a == c) a = a->b;
  if (a == b) return a;
  if (b->k == K::Ite && b->b == a) return mkIte(mkOr1(c, b->a), a, b->d);
  return mk(K::Ite, a->w, 0, c, a, b);
}
E mkConcat(E h, E l) {
  unsigned w = h->w + l->w;
  if (h->k == K::Const && l->k == K::Const) return mkConst((h->c << l->w) | l->c, w);
  if (h->k == K::Extract && l->k == K::Extract && h->a == l->a && (unsigned)h->c == (unsigned)l->c + l->w) return mkExtract(h->a, (unsigned)l->c, w);
  // reassociate to the right so that adjacent extracts meet
  if (l->k == K::Concat && h->k == K::Extract && l->a->k == K::Extract && h->a == l->a->a && (unsigned)h->c == (unsigned)l->a->c + l->a->w)
    return mkConcat(mkExtract(h->a, (unsigned)l->a->c, h->w + l->a->w), l->b);
  if (h->k == K::Const && h->c == 0) return mkZExt(l, w);
  if (h->k == K::Concat) return mkConcat(h->a, mkConcat(h->b, l));
  if (h->k == K::Const && l->k == K::Concat && l->a->k == K::Const) return mkConcat(mkConst((h->c << l->a->w) | l->a->c, h->w + l->a->w), l->b);
  // merging same-condition ites (byte-wise stored ite of wide values)
  if (h->k == K::Ite && l->k == K::Ite && h->a == l->a) return mkIte(h->a, mkConcat(h->b, l->b), mkConcat(h->d, l->d));
  if (h->k == K::ZExt && h->w > h->a->w) return mkZExt(mkConcat(h->a, l), w);
  return mk(K::Concat, w, 0, h, l);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
    case K::Const: return mkConst(a->c >> lo, w);
    case K::Extract: return mkExtract(a->a, (unsigned)a->c + lo, w);
    case K::Concat: {
      unsigned lw = a->b->w;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case K::ZExt:
      if (lo >= a->a->w) return mkConst(0, w);
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case K::SExt:
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
      return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    case K::Ite:
      if (a->b->k == K::Const || a->d->k == K::Const) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
      break;
    case K::And: case K::Or: case K::Xor:
      return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case K::Add: case K::Sub: case K::Mul:
      if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return mk(K::Extract, w, lo, a);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->k == K::Const) return mkConst(a->c, w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::Ite && a->b->k == K::Const && a->d->k == K::Const) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->d, w));
  return mk(K::ZExt, w, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->k == K::Const) return mkConst((u128)sextw(a->c, a->w), w);
  if (a->k == K::SExt) return mkSExt(a->a, w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::Ite && a->b->k == K::Const && a->d->k == K::Const) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
  return mk(K::SExt, w, 0, a);
}
E mkFUn(K k, E a, unsigned w) {
  if (a->k == K::Const) return mkConst(evalFUn(k, a->c, a->w, w), w);
  return mk(k, w, 0, a);
}

static std::map<std::vector<uint32_t>, const VarSet*> gSets;
static const VarSet* internSet(std::vector<uint32_t>&& v) {
  auto it = gSets.find(v);
  if (it != gSets.end()) return it->second;
  VarSet* s = new VarSet; s->v = v; gSets[s->v] = s; return s;
}
const VarSet* varsOf(E e) {
  if (e->vars) return e->vars;
  // iterative post-order to avoid deep recursion
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->vars) { st.pop_back(); continue; }
    bool ready = true;
    for (E c : {x->a, x->b, x->d}) if (c && !c->vars) { st.push_back(c); ready = false; }
    if (!ready) continue;
    st.pop_back();
    if (x->k == K::Var) { x->vars = internSet({(uint32_t)x->c}); continue; }
    const VarSet* r = nullptr;
    for (E c : {x->a, x->b, x->d}) if (c) {
      if (!r || r->v.empty()) r = c->vars;
      else if (c->vars == r || c->vars->v.empty()) {}
      else { std::vector<uint32_t> u; std::set_union(r->v.begin(), r->v.end(), c->vars->v.begin(), c->vars->v.end(), std::back_inserter(u));
        if (u.size() == r->v.size()) {} else if (u.size() == c->vars->v.size()) r = c->vars; else r = internSet(std::move(u)); }
    }
    if (!r) r = internSet({});
    x->vars = r;
  }
  return e->vars;
}

static uint64_t gEpoch = 0;
u128 evalExpr(E e0, const Model& m) {
  uint64_t ep = ++gEpoch;
  std::vector<E> st{e0};
  while (!st.empty()) {
    E e = st.back();
    if (e->evEpoch == ep) { st.pop_back(); continue; }
    u128 r = 0;
    switch (e->k) {
      case K::Const: r = e->c; break;
      case K::Var: r = m.get((uint32_t)e->c) & maskw(e->w); break;
      case K::Ite: {
        if (e->a->evEpoch != ep) { st.push_back(e->a); continue; }
        E t = e->a->evVal ? e->b : e->d;
        if (t->evEpoch != ep) { st.push_back(t); continue; }
        r = t->evVal; break;
      }
      default: {
        bool ready = true;
        if (e->a && e->a->evEpoch != ep) { st.push_back(e->a); ready = false; }
        if (e->b && e->b->evEpoch != ep) { st.push_back(e->b); ready = false; }
        if (!ready) continue;
        switch (e->k) {
          case K::Concat: r = (e->a->evVal << e->b->w) | e->b->evVal; break;
          case K::Extract: r = (e->a->evVal >> (unsigned)e->c) & maskw(e->w); break;
          case K::ZExt: r = e->a->evVal; break;
          case K::SExt: r = (u128)sextw(e->a->evVal, e->a->w) & maskw(e->w); break;
          case K::FFromS: case K::FFromU: case K::FToS: case K::FToU: case K::FConv: r = evalFUn(e->k, e->a->evVal, e->a->w, e->w); break;
          default: evalConstBin(e->k, e->a->evVal, e->b->evVal, e->a->w, r);
        }
      }
    }
    e->evVal = r; e->evEpoch = ep; st.pop_back();
  }
  return e0->evVal;
}
static const char* kn[] = {"const","var","+","-","*","udiv","sdiv","urem","srem","&","|","^","<<",">>u",">>s","=","<u","<=u","<s","<=s","ite","concat","extract","zext","sext","feq","flt","fle","funo","fadd","fsub","fmul","fdiv","ffs","ffu","fts","ftu","fconv"};
std::string toStr(E e, int depth) {
  if (e->k == K::Const) { char b[40]; snprintf(b, 40, "%llx:%d", (unsigned long long)e->c, e->w); return b; }
  if (e->k == K::Var) return gVars[(uint32_t)e->c].name + "#" + std::to_string((uint32_t)e->c);
  if (depth == 0) return "...";
  std::string s = "("; s += kn[(int)e->k];
  if (e->k == K::Extract) s += std::to_string((int)e->c) + ":" + std::to_string(e->w);
  for (E c : {e->a, e->b, e->d}) if (c) s += " " + toStr(c, depth - 1);
  return s + ")";
}
