// Models of the C library, the C++ runtime and POSIX threads, and the harness interface (lps_*).
#include "engine.h"
#include <cstdio>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
using std::string; using std::vector;
typedef BCtx C;
#define RET(v) do { c.ret = (v); return BDone; } while (0)
#define BI(name) static BRes name(C& c)
static uint64_t cc(C& c, int i, unsigned w = 64) { return concretize(c.S, c.a[i], w); }
static Thr& T(C& c) { return c.S.th[c.S.cur]; }

// ----- allocation -----
static uint64_t sizeArg(C& c, int i) { uint64_t n = cc(c, i); return n; }
static BRes doNew(C& c, ObjKind k) { uint64_t n = sizeArg(c, 0); if (n > (1ull << 28)) { Fn* f = nullptr; for (auto* x : gFns) if (x->name == "lps_rt_throw_bad_alloc") f = x; if (!f) violation(c.S, "allocation of " + std::to_string(n) + " bytes"); pushCall(c.S, f, {}, -1, 0); return BPushed; } RET(Val(allocObj(c.S, n, k, false, nullptr))); }
BI(b_new) { return doNew(c, ONew); }
BI(b_newarr) { return doNew(c, ONewArr); }
BI(b_delete) { uint64_t p = cc(c, 0); freeObj(c.S, p, ONew, "delete"); RET(Val()); }
BI(b_deletearr) { uint64_t p = cc(c, 0); freeObj(c.S, p, ONewArr, "delete[]"); RET(Val()); }
BI(b_malloc) { RET(Val(allocObj(c.S, sizeArg(c, 0), OMalloc, false, nullptr))); }
BI(b_calloc) { uint64_t a = cc(c, 0), b = cc(c, 1); RET(Val(allocObj(c.S, a * b, OMalloc, true, nullptr))); }
BI(b_free) { uint64_t p = cc(c, 0); freeObj(c.S, p, OMalloc, "free"); RET(Val()); }
BI(b_realloc) {
  uint64_t p = cc(c, 0), n = cc(c, 1); vector<Val> b; if (p) { Obj* o = c.S.heap.get(p >> 32); uint64_t k = o ? std::min(o->size, n) : 0; readBytes(c.S, Val(p), k, b, true); }
  uint64_t q = allocObj(c.S, n, OMalloc, false, nullptr); writeBytes(c.S, Val(q), b); if (p) freeObj(c.S, p, OMalloc, "realloc"); RET(Val(q)); }
// ----- memory and strings -----
BI(b_memcpy) { uint64_t n = cc(c, 2), d = cc(c, 0), s = cc(c, 1); vector<Val> b; readBytes(c.S, Val(s), n, b, true); writeBytes(c.S, Val(d), b); RET(Val(d)); }
BI(b_memset) { uint64_t n = cc(c, 2), d = cc(c, 0); Val v = c.a[1].e ? fromE(mkExtract(c.a[1].e, 0, 8)) : Val(c.a[1].c & 255); writeBytes(c.S, Val(d), vector<Val>(n, v)); RET(Val(d)); }
BI(b_memcmp) {
  uint64_t n = cc(c, 2), p = cc(c, 0), q = cc(c, 1); if (!n) RET(Val((uint64_t)0)); vector<Val> a, b; readBytes(c.S, Val(p), n, a); readBytes(c.S, Val(q), n, b);
  E r = mkConst(0, 32);
  for (int i = (int)n - 1; i >= 0; i--) { E x = toE(a[i], 8), y = toE(b[i], 8); r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkConst(0xffffffffu, 32), mkConst(1, 32))); }
  RET(fromE(r)); }
BI(b_strlen) { uint64_t p = cc(c, 0); uint64_t i = 0; for (;; i++) { Val v = load(c.S, Val(p + i), 8); if (v.e ? decide(c.S, mkEq(v.e, mkConst(0, 8))) : v.c == 0) break; } RET(Val(i)); }
BI(b_memchr) { uint64_t p = cc(c, 0), n = cc(c, 2); E ch = mkExtract(toE(c.a[1], 32), 0, 8); for (uint64_t i = 0; i < n; i++) { Val v = load(c.S, Val(p + i), 8); if (decide(c.S, mkEq(toE(v, 8), ch))) RET(Val(p + i)); } RET(Val((uint64_t)0)); }
static BRes scmp(C& c, uint64_t n) { uint64_t p = cc(c, 0), q = cc(c, 1); for (uint64_t i = 0; i < n; i++) { E x = toE(load(c.S, Val(p + i), 8), 8), y = toE(load(c.S, Val(q + i), 8), 8); if (!decide(c.S, mkEq(x, y))) RET(fromE(mkIte(mkUlt(x, y), mkConst(0xffffffffu, 32), mkConst(1, 32)))); if (decide(c.S, mkEq(x, mkConst(0, 8)))) break; } RET(Val((uint64_t)0)); }
BI(b_strcmp) { return scmp(c, ~0ull); }
BI(b_strncmp) { return scmp(c, cc(c, 2)); }
BI(b_strcpy) { uint64_t d = cc(c, 0), s = cc(c, 1); string t = readCStr(c.S, Val(s)); vector<Val> b; for (char x : t) b.push_back(Val((uint8_t)x)); b.push_back(Val((uint64_t)0)); writeBytes(c.S, Val(d), b); RET(Val(d)); }
static BRes schr(C& c, bool last) { uint64_t p = cc(c, 0); E ch = mkExtract(toE(c.a[1], 32), 0, 8); uint64_t r = 0; for (uint64_t i = 0;; i++) { E v = toE(load(c.S, Val(p + i), 8), 8); if (decide(c.S, mkEq(v, ch))) { r = p + i; if (!last) break; } if (decide(c.S, mkEq(v, mkConst(0, 8)))) break; } RET(Val(r)); }
BI(b_strchr) { return schr(c, false); }
BI(b_strrchr) { return schr(c, true); }
// ----- formatted output: hexadecimal, decimal, character and string conversions of symbolic values stay symbolic (one path per length) -----
static void writeStr(C& c, uint64_t p, const string& s) { vector<Val> b; for (char x : s) b.push_back(Val((uint8_t)x)); b.push_back(Val((uint64_t)0)); writeBytes(c.S, Val(p), b); }
static void app(vector<Val>& o, const string& s) { for (char x : s) o.push_back(Val((uint64_t)(uint8_t)x)); }
// digits of a symbolic unsigned value
static vector<Val> symDigits(C& c, E v, unsigned base, bool upper) {
  unsigned w = v->w; vector<Val> d; unsigned n = 1;
  if (base == 16) { while (n * 4 < w && !decide(c.S, mkUlt(v, mkConst((u128)1 << (4 * n), w)))) n++;
    for (unsigned i = n; i-- > 0;) { E nib = mkZExt(mkExtract(v, 4 * i, std::min(4u, w - 4 * i)), 8); E ch = mkIte(mkUlt(nib, mkConst(10, 8)), mkAdd(nib, mkConst('0', 8)), mkAdd(nib, mkConst((upper ? 'A' : 'a') - 10, 8))); d.push_back(fromE(ch)); } return d; }
  u128 p = base; while (n < (w == 32 ? 10u : 20u) && !decide(c.S, mkUlt(v, mkConst(p, w)))) { n++; p *= base; }
  p = 1; for (unsigned i = 0; i < n; i++) { E q = mkBin(K::URem, p == 1 ? v : mkBin(K::UDiv, v, mkConst(p, w)), mkConst(base, w)); d.insert(d.begin(), fromE(mkAdd(mkExtract(q, 0, 8), mkConst('0', 8)))); p *= base; } return d; }
static vector<Val> fmt(C& c, const string& f, const std::function<Val(bool)>& next) {
  vector<Val> out; size_t i = 0;
  while (i < f.size()) {
    if (f[i] != '%') { out.push_back(Val((uint64_t)(uint8_t)f[i++])); continue; }
    string spec = "%", flags; i++; bool lng = false; int width = -1, prec = -1; bool dot = false;
    while (i < f.size() && strchr("-+ #0123456789.*lhzjtL", f[i])) { char ch = f[i];
      if (ch == '*') { int v = (int)concretize(c.S, next(false), 32); spec += std::to_string(v); if (dot) prec = v; else { width = v < 0 ? -v : v; if (v < 0) flags += '-'; } }
      else if (ch == '.') { dot = true; prec = 0; spec += ch; }
      else if (ch >= '0' && ch <= '9') { if (ch == '0' && !dot && width < 0) flags += '0'; else if (dot) prec = prec * 10 + ch - '0'; else width = (width < 0 ? 0 : width * 10) + ch - '0'; spec += ch; }
      else if (strchr("lzjt", ch)) lng = true; else if (ch == 'L') incomplete(c.S, "long double formatting"); else if (ch != 'h') { spec += ch; flags += ch; } i++; }
    char k = i < f.size() ? f[i++] : '%'; char buf[512];
    auto pad = [&](vector<Val> d, bool sign) { bool left = flags.find('-') != string::npos, zero = flags.find('0') != string::npos && !left; if (prec >= 0 && k != 's') { while ((int)d.size() - sign < prec) d.insert(d.begin() + sign, Val((uint64_t)'0')); zero = false; } while ((int)d.size() < width) { if (left) d.push_back(Val((uint64_t)' ')); else if (zero && k != 's') d.insert(d.begin() + sign, Val((uint64_t)'0')); else d.insert(d.begin(), Val((uint64_t)' ')); } for (auto& x : d) out.push_back(x); };
    unsigned w = lng ? 64 : 32;
    auto arg = [&]() { Val v = next(false); if (v.e && v.e->w > w) v = fromE(mkExtract(v.e, 0, w)); else if (v.e && v.e->w < w) v = fromE(mkZExt(v.e, w)); return v; };
    bool plain = flags.find_first_of("+ #") == string::npos;
    if (k == '%') out.push_back(Val((uint64_t)'%'));
    else if (strchr("di", k)) { Val v = arg(); if (v.e && plain) { bool neg = decide(c.S, mkBin(K::Slt, v.e, mkConst(0, w))); vector<Val> d = symDigits(c, neg ? mkSub(mkConst(0, w), v.e) : v.e, 10, false); if (neg) d.insert(d.begin(), Val((uint64_t)'-')); pad(d, neg); }
      else { uint64_t x = concretize(c.S, v, w); snprintf(buf, sizeof buf, (spec + "lld").c_str(), lng ? (long long)x : (long long)(int)x); app(out, buf); } }
    else if (strchr("uxXo", k)) { Val v = arg(); if (v.e && plain && k != 'o') pad(symDigits(c, v.e, k == 'u' ? 10 : 16, k == 'X'), false);
      else { uint64_t x = concretize(c.S, v, w); snprintf(buf, sizeof buf, (spec + "ll" + k).c_str(), lng ? (unsigned long long)x : (unsigned long long)(unsigned)x); app(out, buf); } }
    else if (k == 'c') { Val v = next(false); if (v.e && v.e->w > 8) v = fromE(mkExtract(v.e, 0, 8)); else if (!v.e) v.c &= 255; pad({v}, false); }
    else if (k == 's') { uint64_t p = concretize(c.S, next(false), 64); vector<Val> d; while (prec < 0 || (int)d.size() < prec) { Val v = load(c.S, Val(p + d.size()), 8); if (v.e ? decide(c.S, mkEq(v.e, mkConst(0, 8))) : !(v.c & 255)) break; d.push_back(v); if (d.size() > 65536) incomplete(c.S, "string too long"); } pad(d, false); }
    else if (k == 'p') { snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)concretize(c.S, next(false), 64)); app(out, buf); }
    else if (strchr("fFeEgGaA", k)) { uint64_t v = concretize(c.S, next(true), 64); double d; memcpy(&d, &v, 8); snprintf(buf, sizeof buf, (spec + k).c_str(), d); app(out, buf); }
    else incomplete(c.S, "printf conversion");
  }
  return out;
}
static uint64_t bounded(C& c, uint64_t p, uint64_t n, const vector<Val>& s) { if (n) { vector<Val> b(s.begin(), s.begin() + std::min<size_t>(s.size(), n - 1)); b.push_back(Val((uint64_t)0)); writeBytes(c.S, Val(p), b); } return s.size(); }
BI(b_vsnprintf) { uint64_t p = cc(c, 0), n = cc(c, 1); string f = readCStr(c.S, c.a[2]); uint64_t va = cc(c, 3); uint64_t area = rd(c.S, va + 8, 8); auto s = fmt(c, f, [&](bool) { Val v = load(c.S, Val(area), 64); area += 8; return v; }); RET(Val(bounded(c, p, n, s))); }
BI(b_snprintf) { uint64_t p = cc(c, 0), n = cc(c, 1); string f = readCStr(c.S, c.a[2]); size_t k = 3; auto s = fmt(c, f, [&](bool) { if (k >= c.a.size()) violation(c.S, "printf: missing argument"); return c.a[k++]; }); RET(Val(bounded(c, p, n, s))); }
static std::function<Val(bool)> vaList(C& c, uint64_t va) { auto area = std::make_shared<uint64_t>(rd(c.S, va + 8, 8)); return [&c, area](bool) { Val v = load(c.S, Val(*area), 64); *area += 8; return v; }; }
static std::function<Val(bool)> rest(C& c, size_t from) { auto k = std::make_shared<size_t>(from); return [&c, k](bool) { if (*k >= c.a.size()) violation(c.S, "printf: missing argument"); return c.a[(*k)++]; }; }
BI(b_sprintf) { uint64_t p = cc(c, 0); auto s = fmt(c, readCStr(c.S, c.a[1]), rest(c, 2)); RET(Val(bounded(c, p, s.size() + 1, s))); }
BI(b_vsprintf) { uint64_t p = cc(c, 0); auto s = fmt(c, readCStr(c.S, c.a[1]), vaList(c, cc(c, 2))); RET(Val(bounded(c, p, s.size() + 1, s))); }
// the C streams lead nowhere: only what is read matters
BI(b_printf) { RET(Val((uint64_t)fmt(c, readCStr(c.S, c.a[0]), rest(c, 1)).size())); }
BI(b_fprintf) { RET(Val((uint64_t)fmt(c, readCStr(c.S, c.a[1]), rest(c, 2)).size())); }
BI(b_vfprintf) { RET(Val((uint64_t)fmt(c, readCStr(c.S, c.a[1]), vaList(c, cc(c, 2))).size())); }
BI(b_vprintf) { RET(Val((uint64_t)fmt(c, readCStr(c.S, c.a[0]), vaList(c, cc(c, 1))).size())); }
BI(b_puts) { readCStr(c.S, c.a[0]); RET(Val((uint64_t)1)); }
BI(b_fputc) { RET(Val(c.a[0])); }
BI(b_fwrite) { vector<Val> b; uint64_t n = cc(c, 2); readBytes(c.S, c.a[0], cc(c, 1) * n, b); RET(Val(n)); }
// floating-point functions of a value: one path per value
static double dbl(C& c, int i) { uint64_t v = cc(c, i); double d; memcpy(&d, &v, 8); return d; }
static float flt(C& c, int i) { uint32_t v = (uint32_t)cc(c, i, 32); float d; memcpy(&d, &v, 4); return d; }
static Val bits(double d) { uint64_t v; memcpy(&v, &d, 8); return Val(v); }
static Val bitsf(float d) { uint32_t v; memcpy(&v, &d, 4); return Val((uint64_t)v); }
#define M1(g) BI(m_##g) { RET(bits(::g(dbl(c, 0)))); } BI(m_##g##f) { RET(bitsf(::g##f(flt(c, 0)))); }
#define M2(g) BI(m_##g) { RET(bits(::g(dbl(c, 0), dbl(c, 1)))); } BI(m_##g##f) { RET(bitsf(::g##f(flt(c, 0), flt(c, 1)))); }
#define FOR1(X) X(sqrt) X(ceil) X(floor) X(round) X(trunc) X(rint) X(nearbyint) X(exp) X(exp2) X(expm1) X(log1p) X(log) X(log2) X(log10) X(sin) X(cos) X(tan) X(cbrt)
#define FOR2(X) X(pow) X(fmod) X(fmin) X(fmax) X(atan2) X(hypot) X(nextafter) X(copysign)
FOR1(M1) FOR2(M2)
#define MR(g) {#g, m_##g}, {#g "f", m_##g##f},
static BRes (*mathFn(const string& n))(C&) { static const std::map<string, BRes (*)(C&)> m = {FOR1(MR) FOR2(MR)}; auto i = m.find(n); return i == m.end() ? nullptr : i->second; }
bool mathIntrinsic(const string& full, State& S, const vector<Val>& a, const DI& d, Val& out) { // llvm.ceil.f64
  size_t p = full.find('.', 5); if (p == string::npos) return false; string n = full.substr(5, p - 5), t = full.substr(p + 1); if (n == "minnum") n = "fmin"; if (n == "maxnum") n = "fmax"; if (t == "f32") n += "f"; else if (t != "f64") return false;
  auto f = mathFn(n); if (!f) return false; vector<Val> b = a; C c{S, d, b, Val()}; f(c); out = c.ret; return true; }
BI(b_strtod) { uint64_t p = cc(c, 0), e = cc(c, 1); string s = readCStr(c.S, Val(p)); char* q; double d = strtod(s.c_str(), &q); if (e) store(c.S, Val(e), Val(p + (uint64_t)(q - s.c_str())), 64); RET(bits(d)); }
BI(b_zero) { RET(Val((uint64_t)0)); }
BI(b_one) { RET(Val((uint64_t)1)); }
BI(b_nop) { RET(Val()); }
BI(b_abort) { violation(c.S, "abort called"); }
BI(b_terminate) { violation(c.S, "std::terminate called (exception escaped a noexcept function, or a joinable thread was destroyed)"); }
BI(b_pure) { violation(c.S, "pure virtual function called"); }
BI(b_assertfail) { violation(c.S, "assertion failed: " + readCStr(c.S, c.a[0])); }
BI(b_exit) { throw PathEnd{0, "exit"}; }
BI(b_errno) { uint64_t& a = c.S.errnoAddr[c.S.cur]; if (!a) a = allocObj(c.S, 4, OMisc, true, "errno"); RET(Val(a)); }
// ----- exceptions -----
BI(b_exalloc) { RET(Val(allocObj(c.S, cc(c, 0), OExn, false, "exception"))); }
BI(b_exfree) { freeObj(c.S, cc(c, 0), OExn, "release"); RET(Val()); }
BI(b_throw) { uint64_t p = cc(c, 0); ExnRec r; r.ti = c.a[1].c; r.dtor = c.a[2].c; r.adj = p; r.refs = 0; c.S.exn[p] = r; T(c).uncaught++; doThrow(c.S, p, true); return BPushed; }
BI(b_begincatch) { uint64_t p = cc(c, 0); auto& r = c.S.exn[p]; r.refs++; T(c).caught.push_back({p, 0}); T(c).uncaught--; RET(Val(r.adj)); }
BI(b_getptr) { RET(Val(c.S.exn[cc(c, 0)].adj)); }
BI(b_endcatch) {
  if (T(c).caught.empty()) RET(Val());
  auto e = T(c).caught.back(); T(c).caught.pop_back(); auto& r = c.S.exn[e.first]; r.refs--;
  if (e.second || r.refs > 0 || r.pins > 0) RET(Val());
  if (Fn* d = fnAt(r.dtor)) { if (!d->bi) { pushCall(c.S, d, {Val(e.first)}, -1, 0, 1, e.first); return BPushed; } }
  freeObj(c.S, e.first, OExn, "release"); RET(Val()); }
BI(x_current) { RET(Val(T(c).caught.empty() ? (uint64_t)0 : T(c).caught.back().first)); }
BI(x_ref) { c.S.exn[cc(c, 0)].pins++; RET(Val()); }
BI(x_unref) {
  uint64_t p = cc(c, 0); auto& r = c.S.exn[p]; if (--r.pins > 0 || r.refs > 0) RET(Val());
  for (auto& t : c.S.th) for (auto& e : t.caught) if (e.first == p) RET(Val());
  if (Fn* d = fnAt(r.dtor)) { if (!d->bi) { pushCall(c.S, d, {Val(p)}, -1, 0, 1, p); return BPushed; } } freeObj(c.S, p, OExn, "release"); RET(Val()); }
BI(x_rethrow) { uint64_t p = cc(c, 0); if (!p) violation(c.S, "std::terminate called (rethrow of an empty exception_ptr)"); T(c).uncaught++; doThrow(c.S, p, true); return BPushed; }
BI(b_rethrow) { if (T(c).caught.empty()) violation(c.S, "std::terminate called (rethrow without an exception)"); auto& e = T(c).caught.back(); e.second = 1; T(c).uncaught++; doThrow(c.S, e.first, true); return BPushed; }
BI(b_uncaught) { RET(Val((uint64_t)(T(c).uncaught > 0))); }
BI(b_uncaughtn) { RET(Val((uint64_t)T(c).uncaught)); }
BI(b_dyncast) {
  uint64_t p = cc(c, 0), dst = c.a[2].c; if (!p) RET(Val((uint64_t)0));
  uint64_t vp = rd(c.S, p, 8); int64_t top = (int64_t)rd(c.S, vp - 16, 8); uint64_t ti = rd(c.S, vp - 8, 8); bool f; uint64_t r = castPtr(c.S, p + top, ti, dst, f); RET(Val(f ? r : 0)); }
BI(b_guardacq) { uint64_t g = cc(c, 0); syncAcq(c.S, g); uint64_t v = rd(c.S, g, 1); RET(Val((uint64_t)(v == 0))); }
BI(b_guardrel) { uint64_t g = cc(c, 0); store(c.S, Val(g), Val(1), 8, true); syncRel(c.S, g); RET(Val()); }
// ----- time -----
BI(b_now) { c.S.clock += 1; RET(Val(c.S.clock)); }
static uint64_t ts(C& c, uint64_t p) { return rd(c.S, p, 8) * 1000000000ull + rd(c.S, p + 8, 8); }
static BRes sleepFor(C& c, uint64_t ns) {
  Thr& t = T(c);
  if (!c.S.mt) { c.S.clock += ns; RET(Val((uint64_t)0)); }
  if (t.relock == 2) { t.relock = 0; visDone(c.S); RET(Val((uint64_t)0)); }
  t.relock = 2; t.stat = TSleep; t.deadline = c.S.clock + ns; blockCurrent(c.S); return BYield; }
BI(b_nanosleep) { if (T(c).relock == 2) return sleepFor(c, 0); return sleepFor(c, ts(c, cc(c, 0))); }
BI(b_usleep) { return sleepFor(c, (cc(c, 0, 32)) * 1000ull); }
BI(b_sleep) { return sleepFor(c, (cc(c, 0, 32)) * 1000000000ull); }
BI(b_time) { c.S.clock += 1; uint64_t p = cc(c, 0), t = c.S.clock / 1000000000ull; if (p) store(c.S, Val(p), Val(t), 64); RET(Val(t)); }
BI(b_clockgettime) { c.S.clock += 1; uint64_t p = cc(c, 1); store(c.S, Val(p), Val(c.S.clock / 1000000000ull), 64); store(c.S, Val(p + 8), Val(c.S.clock % 1000000000ull), 64); RET(Val((uint64_t)0)); }
BI(b_gettimeofday) { c.S.clock += 1; uint64_t p = cc(c, 0); store(c.S, Val(p), Val(c.S.clock / 1000000000ull), 64); store(c.S, Val(p + 8), Val(c.S.clock % 1000000000ull / 1000), 64); RET(Val((uint64_t)0)); }
// ----- threads -----
static void checkMutexMem(C& c, uint64_t m) { load(c.S, Val(m + 16), 32, true); }
BI(b_create) {
  if (!schedPoint(c.S)) return BYield;
  uint64_t out = cc(c, 0), fn = cc(c, 2); State& S = c.S; Fn* f = fnAt(fn); if (!f) violation(S, "thread with an invalid start routine");
  if ((int)S.th.size() >= MAXT) incomplete(S, "too many threads");
  if (!S.mt) { S.mt = true; S.th[0].clk.t[0] = 1; }
  int id = S.th.size(); store(S, Val(out), Val((uint64_t)id + 1), 64, true);
  S.th.emplace_back(); Thr& n = S.th.back(); Thr& me = S.th[S.cur]; n.clk = me.clk; n.clk.t[id] = 1; me.clk.t[S.cur]++;
  int save = S.cur; S.cur = id; pushCall(S, f, {c.a[3]}, -1, 0); S.cur = save; S.idle = 0; visDone(S); RET(Val((uint64_t)0)); }
BI(b_join) {
  uint64_t id = cc(c, 0) - 1; State& S = c.S; if (id >= S.th.size() || S.th[id].joined || S.th[id].detached) violation(S, "join of an invalid thread");
  if ((int)id == S.cur) RET(Val((uint64_t)EDEADLK));
  S.th[S.cur].wantJoin = id; if (!schedPoint(S)) return BYield;
  S.th[S.cur].wantJoin = -1; S.th[S.cur].clk.join(S.th[id].clk); S.th[id].joined = true; visDone(S); RET(Val((uint64_t)0)); }
BI(b_detach) { uint64_t id = cc(c, 0) - 1; if (id < c.S.th.size()) c.S.th[id].detached = true; RET(Val((uint64_t)0)); }
BI(b_self) { RET(Val((uint64_t)c.S.cur + 1)); }
BI(b_yield) { if (!c.S.mt) RET(Val((uint64_t)0)); Thr& t = T(c); if (t.relock == 3) { t.relock = 0; visDone(c.S); RET(Val((uint64_t)0)); } t.relock = 3; yieldCurrent(c.S); return BYield; }
BI(b_mlock) {
  uint64_t m = cc(c, 0); State& S = c.S; checkMutexMem(c, m); Mtx& x = S.mtx[m]; int kind = (int)rd(S, m + 16, 4);
  if (x.owner == S.cur && kind == 1) { x.count++; RET(Val((uint64_t)0)); }
  if (x.owner == S.cur && kind == 2) RET(Val((uint64_t)EDEADLK));
  if (!S.mt) { if (x.owner == S.cur) violation(S, "deadlock: mutex locked twice by the same thread"); x.owner = S.cur; x.count = 1; RET(Val((uint64_t)0)); }
  T(c).wantMutex = m; T(c).wantW = true; if (!schedPoint(S)) return BYield;
  if (x.owner >= 0 || x.readers) { blockCurrent(S); return BYield; }
  T(c).wantMutex = 0; T(c).wantW = false; x.owner = S.cur; x.count = 1; syncAcq(S, m); visDone(S); RET(Val((uint64_t)0)); }
BI(b_mtrylock) {
  uint64_t m = cc(c, 0); State& S = c.S; checkMutexMem(c, m); if (!schedPoint(S)) return BYield; Mtx& x = S.mtx[m]; int kind = (int)rd(S, m + 16, 4); visDone(S);
  if (x.owner == S.cur && kind == 1) { x.count++; RET(Val((uint64_t)0)); }
  if (x.owner >= 0 || x.readers) RET(Val((uint64_t)EBUSY)); x.owner = S.cur; x.count = 1; syncAcq(S, m); RET(Val((uint64_t)0)); }
BI(b_munlock) {
  uint64_t m = cc(c, 0); State& S = c.S; checkMutexMem(c, m); Mtx& x = S.mtx[m];
  if (x.readers && x.owner < 0) { x.readers--; syncRel(S, m); RET(Val((uint64_t)0)); }
  if (x.owner != S.cur) violation(S, "mutex unlocked by a thread that does not hold it");
  if (--x.count == 0) { x.owner = -1; syncRel(S, m); } RET(Val((uint64_t)0)); }
BI(b_rdlock) {
  uint64_t m = cc(c, 0); State& S = c.S; load(S, Val(m), 32, true); Mtx& x = S.mtx[m]; if (!S.mt) { x.readers++; RET(Val((uint64_t)0)); }
  T(c).wantMutex = m; T(c).wantW = false; if (!schedPoint(S)) return BYield; if (x.owner >= 0) { blockCurrent(S); return BYield; } T(c).wantMutex = 0; x.readers++; syncAcq(S, m); visDone(S); RET(Val((uint64_t)0)); }
BI(b_wrlock) {
  uint64_t m = cc(c, 0); State& S = c.S; load(S, Val(m), 32, true); Mtx& x = S.mtx[m]; if (!S.mt) { if (x.owner == S.cur || x.readers) violation(S, "deadlock: lock taken twice by the same thread"); x.owner = S.cur; x.count = 1; RET(Val((uint64_t)0)); }
  T(c).wantMutex = m; T(c).wantW = true; if (!schedPoint(S)) return BYield; if (x.owner >= 0 || x.readers) { blockCurrent(S); return BYield; } T(c).wantMutex = 0; T(c).wantW = false; x.owner = S.cur; x.count = 1; syncAcq(S, m); visDone(S); RET(Val((uint64_t)0)); }
static BRes condWait(C& c, bool timed, uint64_t deadline) {
  State& S = c.S; uint64_t cv = cc(c, 0), m = cc(c, 1); Thr& t = T(c);
  if (t.relock == 1) {   // woken: reacquire the mutex
    Mtx& x = S.mtx[m]; if (!S.granted && S.mt) { S.needPick = 1; return BYield; }
    if (x.owner >= 0) { blockCurrent(S); return BYield; }
    x.owner = S.cur; x.count = 1; syncAcq(S, m); t.relock = 0; t.stat = TRun; t.wantMutex = 0; bool to = t.timedOut; t.timedOut = false; t.woken = false; visDone(S); if (!to) syncAcq(S, cv);
    RET(Val((uint64_t)(to ? ETIMEDOUT : 0))); }
  checkMutexMem(c, m); load(S, Val(cv), 32, true);
  if (!schedPoint(S)) return BYield;
  Mtx& x = S.mtx[m]; if (x.owner != S.cur) violation(S, "condition wait without holding the mutex");
  if (!S.mt) { // only the calling thread exists
    if (!timed) violation(S, "deadlock: condition wait that nobody can end");
    if (++S.idle > gCfg.maxIdle) violation(S, "hang: only timed waits remain after " + std::to_string(gCfg.maxIdle) + " consecutive wait periods");
    if (deadline > S.clock) S.clock = deadline; RET(Val((uint64_t)ETIMEDOUT)); }
  x.owner = -1; x.count = 0; syncRel(S, m); t.relock = 1; t.stat = TCondWait; t.waitC = cv; t.waitM = m; t.timed = timed; t.deadline = deadline; t.woken = false; t.timedOut = false; t.wantW = true; blockCurrent(S); return BYield; }
BI(b_cwait) { return condWait(c, false, 0); }
BI(b_ctimed) { return condWait(c, true, T(c).relock == 1 ? 0 : ts(c, cc(c, 2))); }
BI(b_cclock) { return condWait(c, true, T(c).relock == 1 ? 0 : ts(c, cc(c, 3))); }
static BRes notify(C& c, bool all) {
  uint64_t cv = cc(c, 0); State& S = c.S; load(S, Val(cv), 32, true); if (!schedPoint(S)) return BYield;
  vector<int> w; for (size_t i = 0; i < S.th.size(); i++) if (S.th[i].stat == TCondWait && !S.th[i].woken && S.th[i].waitC == cv) w.push_back(i);
  if (S.mt) syncRel(S, cv);
  if (!w.empty()) { S.idle = 0; size_t lo = 0, hi = w.size(); if (!all && w.size() > 1) { lo = chooseN(S, w.size(), true); hi = lo + 1; } for (size_t i = lo; i < hi; i++) { Thr& t = S.th[w[i]]; t.woken = true; t.wantMutex = t.waitM; } }
  visDone(S); RET(Val((uint64_t)0)); }
BI(b_csignal) { return notify(c, false); }
BI(b_cbroadcast) { return notify(c, true); }
BI(b_once) {
  uint64_t o = cc(c, 0), f = cc(c, 1); syncAcq(c.S, o); uint64_t v = rd(c.S, o, 4); if (v) RET(Val((uint64_t)0));
  store(c.S, Val(o), Val(2), 32, true); c.ret = Val((uint64_t)0); Fn* fn = fnAt(f); if (!fn) violation(c.S, "once with an invalid routine"); if (c.d.dst >= 0) c.S.th[c.S.cur].st.back().r[c.d.dst] = Val((uint64_t)0); pushCall(c.S, fn, {}, -1, 0); return BPushed; }
// ----- harness interface -----
static Input mkInput(C& c, const string& n, uint64_t k) { Input in; in.name = n; for (uint64_t i = 0; i < k; i++) in.bytes.push_back(fromE(freshVar(c.S, n + (k > 1 ? "[" + std::to_string(i) + "]" : ""), 8))); return in; }
BI(l_sym) { uint64_t p = cc(c, 0), n = cc(c, 1); string nm = readCStr(c.S, c.a[2]); Input in = mkInput(c, nm, n); writeBytes(c.S, Val(p), in.bytes); c.S.inputs.push_back(in); RET(Val()); }
static Val wide(C& c, const string& nm) { E v = freshVar(c.S, nm, 64); Input in; in.name = nm; for (int i = 0; i < 8; i++) in.bytes.push_back(Val(0, mkExtract(v, i * 8, 8))); c.S.inputs.push_back(in); return Val(0, v); }
BI(l_val) { RET(wide(c, readCStr(c.S, c.a[0]))); }
BI(l_range) { // value in [lo, hi], not enumerated
  uint64_t lo = cc(c, 1), hi = cc(c, 2); string nm = readCStr(c.S, c.a[0]); if (lo == hi) { Input in; in.name = nm; for (int i = 0; i < 8; i++) in.bytes.push_back(Val((lo >> (8 * i)) & 255)); c.S.inputs.push_back(in); RET(Val(lo)); }
  if (lo == 0 && hi < 256) { // a narrow variable keeps expressions small
    E v = freshVar(c.S, nm, 8); assumeC(c.S, mkUle(v, mkConst(hi, 8))); Input in; in.name = nm; in.bytes.push_back(Val(0, v)); for (int i = 1; i < 8; i++) in.bytes.push_back(Val((uint64_t)0)); c.S.inputs.push_back(in); RET(fromE(mkZExt(v, 64))); }
  Val v = wide(c, nm); assumeC(c.S, mkAnd1(mkUle(mkConst(lo, 64), v.e), mkUle(v.e, mkConst(hi, 64)))); RET(v); }
BI(l_choose) { // value in [0, n), enumerated
  uint64_t n = cc(c, 1); if (n == 0) throw PathEnd{2, "empty choice"}; string nm = readCStr(c.S, c.a[0]); State& S = c.S;
  if (n == 1) { Input in; in.name = nm; in.bytes.assign(8, Val((uint64_t)0)); S.inputs.push_back(in); RET(Val((uint64_t)0)); }
  if (!S.instE) { S.instE = freshVar(S, nm, 16); assumeC(S, mkUlt(S.instE, mkConst(n, 16))); }
  uint64_t v = concretize(S, Val(0, S.instE), 16); S.instE = nullptr;
  Input in; in.name = nm; for (int i = 0; i < 8; i++) in.bytes.push_back(Val((v >> (8 * i)) & 255)); S.inputs.push_back(in); RET(Val(v)); }
BI(l_assume) { Val v = c.a[0]; if (!v.e) { if (!(v.c & 0xff)) throw PathEnd{2, "assume"}; } else { E e = v.e->w == 1 ? v.e : mkNot1(mkEq(v.e, mkConst(0, v.e->w))); assumeC(c.S, e); } RET(Val()); }
BI(l_assert) { Val v = c.a[0]; string m = readCStr(c.S, c.a[1]); c.S.idle = 0; if (!v.e) checkAssert(c.S, mkBool(v.c & 0xff), m); else { E e = v.e->w == 1 ? v.e : mkNot1(mkEq(v.e, mkConst(0, v.e->w))); checkAssert(c.S, e, m); } RET(Val()); }
BI(l_fail) { if (c.S.replaying) RET(Val()); violation(c.S, readCStr(c.S, c.a[0])); }
BI(l_conc) { RET(Val(concretize(c.S, c.a[0], 64))); }
BI(l_cover) { noteCover(c.S, internStr(readCStr(c.S, c.a[0]))); RET(Val()); }
BI(l_obs) { string n = readCStr(c.S, c.a[0]); c.S.obs.push_back({n, {c.a[1]}}); RET(Val()); }
BI(l_obsb) { string n = readCStr(c.S, c.a[0]); uint64_t k = cc(c, 2); vector<Val> b; readBytes(c.S, c.a[1], k, b); c.S.obs.push_back({n, b}); RET(Val()); }
BI(l_param) { string n = readCStr(c.S, c.a[0]); auto it = gCfg.params.find(n); RET(it == gCfg.params.end() ? c.a[1] : Val((uint64_t)it->second)); }
BI(l_progress) { c.S.idle = 0; RET(Val()); }
BI(l_budget) { c.S.preempts = gCfg.preempt - (int)cc(c, 0, 32); RET(Val()); }
BI(l_live) { uint64_t n = 0; for (uint32_t i = 1; i < c.S.nextId; i++) { Obj* o = c.S.heap.get(i); if (o && !o->freed && (o->kind == ONew || o->kind == ONewArr || o->kind == OMalloc)) n++; } RET(Val(n)); }
BI(l_symbolic) { RET(Val((uint64_t)1)); }
BI(l_isvalid) { uint64_t p = cc(c, 0); Obj* o = p ? c.S.heap.get(p >> 32) : nullptr; RET(Val((uint64_t)(o && !o->freed))); }
BI(l_print) { string s = readCStr(c.S, c.a[0]); if (getenv("LPS_PRINT")) fprintf(stderr, "[%s] %llx %s\n", s.c_str(), (unsigned long long)c.a[1].c, c.a[1].e ? toStr(c.a[1].e).c_str() : ""); RET(Val()); }
BI(l_mt) { // mt19937 output: an arbitrary 32-bit value
  auto it = gCfg.params.find("draws"); if (it != gCfg.params.end()) { int n = 0; for (auto& in : c.S.inputs) n += in.name == "random"; if (n >= it->second) throw PathEnd{2, "random draws"}; }
  { int n = 0; for (auto& in : c.S.inputs) n += in.name == "random"; if (n >= 1000) throw PathEnd{2, "random draws"}; }
  int k = 0, focus = -1; for (auto& in : c.S.inputs) { k += in.name == "random"; if (in.name == "focus") focus = (int)in.bytes[0].c; }
  if (gCfg.params.count("randpair") && k % 8 == focus) focus = -1; else if (gCfg.params.count("randpair")) k %= 8;
  if (gCfg.params.count("randseq") || (gCfg.params.count("randpair") && focus >= 0)) { // concrete, distinct draws: the identifiers' values are not part of this property
    uint64_t v = ((uint64_t)(k + 1) * 0x9E3779B1u) & 0xffffffff; v ^= v >> 15; v = (v * 0x85EBCA6Bu) & 0xffffffff; v ^= v >> 13; Input in; in.name = "random"; for (int i = 0; i < 8; i++) in.bytes.push_back(Val((v >> (8 * i)) & 255)); c.S.inputs.push_back(in); RET(Val(v)); }
  Val v = wide(c, "random"); if (focus >= 0 && k != focus) assumeC(c.S, mkUle(mkConst(0x10000002, 32), mkExtract(v.e, 0, 32)));
  RET(fromE(mkZExt(mkExtract(v.e, 0, 32), 64))); }
BI(l_mtseed) { RET(Val()); }

void registerBuiltins() {
  auto& B = gBuiltins;
  for (auto n : {"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"}) B[n] = b_new;
  for (auto n : {"_Znam", "_ZnamRKSt9nothrow_t"}) B[n] = b_newarr;
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) B[n] = b_delete;
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}) B[n] = b_deletearr;
  B["malloc"] = b_malloc; B["calloc"] = b_calloc; B["free"] = b_free; B["realloc"] = b_realloc;
  B["memcpy"] = b_memcpy; B["memmove"] = b_memcpy; B["memset"] = b_memset; B["memcmp"] = b_memcmp; B["bcmp"] = b_memcmp; B["strlen"] = b_strlen; B["memchr"] = b_memchr; B["strcmp"] = b_strcmp; B["strncmp"] = b_strncmp; B["strcpy"] = b_strcpy; B["strchr"] = b_strchr; B["strrchr"] = b_strrchr;
  B["vsnprintf"] = b_vsnprintf; B["snprintf"] = b_snprintf; B["uselocale"] = b_zero; B["__uselocale"] = b_zero;
  B["abort"] = b_abort; B["_ZSt9terminatev"] = b_terminate; B["__cxa_pure_virtual"] = b_pure; B["__assert_fail"] = b_assertfail; B["exit"] = b_exit; B["_exit"] = b_exit; B["__errno_location"] = b_errno; B["__cxa_atexit"] = b_zero; B["atexit"] = b_zero;
  B["__cxa_allocate_exception"] = b_exalloc; B["__cxa_free_exception"] = b_exfree; B["__cxa_throw"] = b_throw; B["__cxa_begin_catch"] = b_begincatch; B["__cxa_get_exception_ptr"] = b_getptr; B["__cxa_end_catch"] = b_endcatch; B["__cxa_rethrow"] = b_rethrow; B["_ZSt18uncaught_exceptionv"] = b_uncaught; B["_ZSt19uncaught_exceptionsv"] = b_uncaughtn; B["__dynamic_cast"] = b_dyncast;
  B["__cxa_guard_acquire"] = b_guardacq; B["__cxa_guard_release"] = b_guardrel; B["__cxa_guard_abort"] = b_nop;
  B["_ZNSt6chrono3_V212steady_clock3nowEv"] = b_now; B["_ZNSt6chrono3_V212system_clock3nowEv"] = b_now; B["nanosleep"] = b_nanosleep; B["usleep"] = b_usleep; B["sleep"] = b_sleep;
  B["pthread_create"] = b_create; B["pthread_join"] = b_join; B["pthread_detach"] = b_detach; B["pthread_self"] = b_self; B["sched_yield"] = b_yield; B["pthread_equal"] = nullptr; B.erase("pthread_equal");
  B["pthread_mutex_lock"] = b_mlock; B["pthread_mutex_trylock"] = b_mtrylock; B["pthread_mutex_unlock"] = b_munlock; B["pthread_mutex_init"] = b_zero; B["pthread_mutex_destroy"] = b_zero;
  B["pthread_rwlock_rdlock"] = b_rdlock; B["pthread_cond_wait"] = b_cwait; B["pthread_cond_timedwait"] = b_ctimed; B["pthread_cond_clockwait"] = b_cclock; B["pthread_cond_signal"] = b_csignal; B["pthread_cond_broadcast"] = b_cbroadcast; B["pthread_cond_init"] = b_zero; B["pthread_cond_destroy"] = b_zero; B["pthread_once"] = b_once;
  B["lps_sym"] = l_sym; B["lps_val"] = l_val; B["lps_range"] = l_range; B["lps_choose"] = l_choose; B["lps_assume"] = l_assume; B["lps_assert_"] = l_assert; B["lps_fail"] = l_fail; B["lps_concretize"] = l_conc; B["lps_cover"] = l_cover; B["lps_obs"] = l_obs; B["lps_obs_bytes"] = l_obsb; B["lps_param"] = l_param; B["lps_progress"] = l_progress; B["lps_preempt_left"] = l_budget; B["lps_live_heap"] = l_live; B["lps_symbolic"] = l_symbolic; B["lps_print"] = l_print; B["lps_valid"] = l_isvalid;
  B["lps_exn_current"] = x_current; B["lps_exn_ref"] = x_ref; B["lps_exn_unref"] = x_unref; B["lps_exn_rethrow"] = x_rethrow;
  B["sprintf"] = b_sprintf; B["vsprintf"] = b_vsprintf; B["printf"] = b_printf; B["fprintf"] = b_fprintf; B["vfprintf"] = b_vfprintf; B["vprintf"] = b_vprintf; B["puts"] = b_puts; B["perror"] = b_puts; B["fputs"] = b_puts; B["putchar"] = b_fputc; B["fputc"] = b_fputc; B["putc"] = b_fputc; B["fwrite"] = b_fwrite; B["fflush"] = b_zero;
  for (auto& n : std::vector<std::pair<string, BRes (*)(C&)>>{FOR1(MR) FOR2(MR)}) B[n.first] = n.second;
  B["strtod"] = b_strtod; B["time"] = b_time; B["clock_gettime"] = b_clockgettime; B["gettimeofday"] = b_gettimeofday; B["pthread_mutex_clocklock"] = b_mlock; B["pthread_mutex_timedlock"] = b_mlock; B["pthread_rwlock_wrlock"] = b_wrlock; B["pthread_rwlock_unlock"] = b_munlock; B["pthread_rwlock_init"] = b_zero; B["pthread_rwlock_destroy"] = b_zero; B["quick_exit"] = b_exit;
  B["!mt19937"] = l_mt; B["!mtseed"] = l_mtseed;
}
