#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <unordered_map>
#include <fstream>
#include <unistd.h>
SolverStats gSolverStats;
unsigned gSolverTimeoutMs = 20000; bool gCheckTime;
std::string gDumpDir;
static Z3_context ctx; static Z3_solver sBV, sFP; static bool inited;
static int gDumpN;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  if (inited) return; inited = true;
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, errh);
  sBV = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, sBV);
  sFP = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV")); Z3_solver_inc_ref(ctx, sFP);
  for (auto s : {sBV, sFP}) { Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gSolverTimeoutMs); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p); }
}
// Booleans (width 1) are encoded as Z3 Bool, everything else as bit-vectors.
static Z3_ast tr(E e);
static Z3_ast keep(E e, Z3_ast a) { Z3_inc_ref(ctx, a); e->z3ast = a; return a; }
static Z3_ast bvnum(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(ctx, w);
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, s);
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), Z3_mk_bv_sort(ctx, w - 64)), lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, 64));
  return Z3_mk_concat(ctx, hi, lo);
}
static Z3_ast asBV(E e) { Z3_ast a = tr(e); if (e->w != 1) return a; return Z3_mk_ite(ctx, a, bvnum(1, 1), bvnum(0, 1)); }
static Z3_ast asBool(Z3_ast bv1) { return Z3_mk_eq(ctx, bv1, bvnum(1, 1)); }
static Z3_sort fsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
static Z3_ast asFP(E e) { return Z3_mk_fpa_to_fp_bv(ctx, asBV(e), fsort(e->w)); }
static Z3_ast tr1(E e) {
  unsigned w = e->w;
  switch (e->k) {
    case K::Const: return w == 1 ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : bvnum(e->c, w);
    case K::Var: { Z3_symbol s = Z3_mk_int_symbol(ctx, (int)(uint32_t)e->c); return Z3_mk_const(ctx, s, w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w)); }
    case K::And: case K::Or: case K::Xor:
      if (w == 1) { Z3_ast v[2] = {tr(e->a), tr(e->b)};
        if (e->k == K::And) return Z3_mk_and(ctx, 2, v); if (e->k == K::Or) return Z3_mk_or(ctx, 2, v);
        if (e->b->k == K::Const && e->b->c == 1) return Z3_mk_not(ctx, v[0]);
        return Z3_mk_xor(ctx, v[0], v[1]); }
      if (e->k == K::And) return Z3_mk_bvand(ctx, tr(e->a), tr(e->b));
      if (e->k == K::Or) return Z3_mk_bvor(ctx, tr(e->a), tr(e->b));
      return Z3_mk_bvxor(ctx, tr(e->a), tr(e->b));
    case K::Eq: return Z3_mk_eq(ctx, tr(e->a), tr(e->b));
    case K::Ite: return Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->d));
    case K::Ult: return Z3_mk_bvult(ctx, asBV(e->a), asBV(e->b));
    case K::Ule: return Z3_mk_bvule(ctx, asBV(e->a), asBV(e->b));
    case K::Slt: return Z3_mk_bvslt(ctx, asBV(e->a), asBV(e->b));
    case K::Sle: return Z3_mk_bvsle(ctx, asBV(e->a), asBV(e->b));
    case K::FEq: return Z3_mk_fpa_eq(ctx, asFP(e->a), asFP(e->b));
    case K::FLt: return Z3_mk_fpa_lt(ctx, asFP(e->a), asFP(e->b));
    case K::FLe: return Z3_mk_fpa_leq(ctx, asFP(e->a), asFP(e->b));
    case K::FUno: { Z3_ast v[2] = {Z3_mk_fpa_is_nan(ctx, asFP(e->a)), Z3_mk_fpa_is_nan(ctx, asFP(e->b))}; return Z3_mk_or(ctx, 2, v); }
    default: break;
  }
  Z3_ast r;
  Z3_ast rm = (e->k >= K::FAdd) ? Z3_mk_fpa_rne(ctx) : nullptr;
  switch (e->k) {
    case K::Add: r = Z3_mk_bvadd(ctx, asBV(e->a), asBV(e->b)); break;
    case K::Sub: r = Z3_mk_bvsub(ctx, asBV(e->a), asBV(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(ctx, asBV(e->a), asBV(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(ctx, asBV(e->a), asBV(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(ctx, asBV(e->a), asBV(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(ctx, asBV(e->a), asBV(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(ctx, asBV(e->a), asBV(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(ctx, asBV(e->a), asBV(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(ctx, asBV(e->a), asBV(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(ctx, asBV(e->a), asBV(e->b)); break;
    case K::Concat: r = Z3_mk_concat(ctx, asBV(e->a), asBV(e->b)); break;
    case K::Extract: r = Z3_mk_extract(ctx, (unsigned)e->c + w - 1, (unsigned)e->c, asBV(e->a)); break;
    case K::ZExt: r = Z3_mk_zero_ext(ctx, w - e->a->w, asBV(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(ctx, w - e->a->w, asBV(e->a)); break;
    case K::FAdd: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rm, asFP(e->a), asFP(e->b))); break;
    case K::FSub: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rm, asFP(e->a), asFP(e->b))); break;
    case K::FMul: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rm, asFP(e->a), asFP(e->b))); break;
    case K::FDiv: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rm, asFP(e->a), asFP(e->b))); break;
    case K::FFromS: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rm, asBV(e->a), fsort(w))); break;
    case K::FFromU: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rm, asBV(e->a), fsort(w))); break;
    case K::FToS: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), asFP(e->a), w); break;
    case K::FToU: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), asFP(e->a), w); break;
    case K::FConv: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rm, asFP(e->a), fsort(w))); break;
    default: fprintf(stderr, "tr: bad kind\n"); _exit(3);
  }
  if (w == 1) return asBool(r);
  return r;
}
static Z3_ast tr(E e0) {
  if (e0->z3ast) return (Z3_ast)e0->z3ast;
  std::vector<E> st{e0};
  while (!st.empty()) {
    E e = st.back();
    if (e->z3ast) { st.pop_back(); continue; }
    bool ready = true;
    for (E c : {e->a, e->b, e->d}) if (c && !c->z3ast) { st.push_back(c); ready = false; }
    if (!ready) continue;
    st.pop_back(); keep(e, tr1(e));
  }
  return (Z3_ast)e0->z3ast;
}
struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> asg; };
struct VH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> gCache;
static bool intersects(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
  size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return true; if (a[i] < b[j]) i++; else j++; } return false; }

Res solve(const std::vector<E>& pc, E q, const Model& base, Model& out, bool dump) {
  gSolverStats.queries++;
  if (q->k == K::Const) { out = base; return q->c ? Res::Sat : Res::Unsat; }
  init();
  // independence slicing
  std::vector<uint32_t> vs = varsOf(q)->v; std::vector<E> rel; std::vector<char> used(pc.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { auto& pv = varsOf(pc[i])->v;
      if (intersects(pv, vs)) { used[i] = 1; rel.push_back(pc[i]);
        std::vector<uint32_t> u; std::set_union(vs.begin(), vs.end(), pv.begin(), pv.end(), std::back_inserter(u)); if (u.size() != vs.size()) { vs.swap(u); ch = true; } } }
  }
  std::vector<uint32_t> key; for (auto e : rel) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(q->id);
  auto it = gCache.find(key);
  if (it != gCache.end() && !dump) { gSolverStats.cacheHits++; if (it->second.r == Res::Sat) { out = base; for (auto& p : it->second.asg) out.set(p.first, p.second); } return it->second.r; }
  bool fp = q->fp; for (auto e : rel) fp |= e->fp;
  Z3_solver s = fp ? sFP : sBV;
  Z3_solver_push(ctx, s);
  for (auto e : rel) Z3_solver_assert(ctx, s, tr(e));
  Z3_solver_assert(ctx, s, tr(q));
  auto t0 = std::chrono::steady_clock::now();
  Z3_lbool r = Z3_solver_check(ctx, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (dt > 0.1) gCheckTime = true; gSolverStats.z3calls++; gSolverStats.z3time += dt; gSolverStats.maxq = std::max(gSolverStats.maxq, dt);
  CacheEnt ce;
  if (dump && !gDumpDir.empty()) { std::ofstream f(gDumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(gDumpN++) + (r == Z3_L_TRUE ? "_sat" : r == Z3_L_FALSE ? "_unsat" : "_unk") + ".smt2"); f << "(set-logic " << (fp ? "QF_BVFP" : "QF_BV") << ")\n" << Z3_solver_to_string(ctx, s) << "(check-sat)\n"; }
  if (r == Z3_L_TRUE) {
    gSolverStats.sat++; ce.r = Res::Sat;
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    for (uint32_t v : vs) {
      unsigned w = gVars[v].w;
      Z3_ast c = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)v), w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w)), o;
      uint64_t val = 0;
      if (Z3_model_eval(ctx, m, c, true, &o)) { Z3_inc_ref(ctx, o); if (w == 1) val = Z3_get_bool_value(ctx, o) == Z3_L_TRUE; else Z3_get_numeral_uint64(ctx, o, &val); Z3_dec_ref(ctx, o); }
      ce.asg.push_back({v, val});
    }
    Z3_model_dec_ref(ctx, m);
    out = base; for (auto& p : ce.asg) out.set(p.first, p.second);
    // the witness must satisfy what was asked, by our own evaluator (guards translation and evaluator against each other)
    if (!evalExpr(q, out)) { fprintf(stderr, "ENGINE-ERROR: model does not satisfy query %s\n", toStr(q).c_str()); ce.r = Res::Unknown; gSolverStats.unknown++; }
    else for (auto e : rel) if (!evalExpr(e, out)) { fprintf(stderr, "ENGINE-ERROR: model does not satisfy constraint %s\n", toStr(e).c_str()); ce.r = Res::Unknown; break; }
  } else if (r == Z3_L_FALSE) { gSolverStats.unsat++; ce.r = Res::Unsat; }
  else { gSolverStats.unknown++; ce.r = Res::Unknown; }
  Z3_solver_pop(ctx, s, 1);
  if (ce.r != Res::Unknown) gCache[key] = ce;
  return ce.r;
}
