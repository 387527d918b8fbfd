// D06: text rendering.
#include "common.h"
#include <cstdio>
static Str text(const M& m) {
  char b[64]; Str r; switch (m.k) { case KEmpty: return "null"; case KStr: return "\"" + m.s + "\""; case KInt: { long long v = m.i; unsigned long long u = v < 0 ? -v : v; int n = 63; b[n] = 0; do { b[--n] = '0' + u % 10; u /= 10; } while (u); if (v < 0) b[--n] = '-'; return b + n; }
    case KDbl: snprintf(b, sizeof b, "%g", m.d); return b; case KBool: return m.b ? "1" : "0";
    case KList: r = "["; for (size_t i = 0; i < m.items.size(); i++) { if (i) r += ", "; r += text(m.items[i]); } return r + "]";
    case KDict: r = "{"; for (size_t i = 0; i < m.items.size(); i++) { if (i) r += ", "; r += m.keys[i] + ": " + text(m.items[i]); } return r + "}"; } return r; }
static void limitInts(const M& m) { if (m.k == KInt) lps_assume(m.i > -lps_param("intmax", 1000) && m.i < lps_param("intmax", 1000)); for (auto& x : m.items) limitInts(x); }
extern "C" void lps_main(void) {
  Gen g; g.budget = lps_param("tree", 3); g.leaves = lps_param("leaves", 31); g.strLen = lps_param("strlen", 2); g.concreteDouble = true; Datagram d; M m;
  if (lps_param("scalars", 0)) { switch (lps_choose("v", 3)) { case 0: { static const int e[] = {0, -1, 7, 2147483647, -2147483647 - 1, 1000000, -99999}; m.k = KInt; m.i = e[lps_choose("i", 7)]; d = m.i; break; }
      case 1: { static const double e[] = {0.0, -0.0, 1.0, 0.1, 1e6, 1234567.0, 1e-5, 1e100, -2.5, 3.14159265358979}; m.k = KDbl; m.d = e[lps_choose("d", 10)]; d = m.d; break; }
      case 2: { m.k = KStr; m.s = anyStr("s", 4); d = m.s; break; } } }
  else { anyInput(d, m, g); limitInts(m); }
  std::ostringstream o; o << d; Str s = o.str(); lps_assert(s == text(m), "D06: the text shows exactly the contents"); lps_obs_bytes("text", s.data(), s.size());
  std::ostringstream p; p << d; lps_assert(p.str() == s, "D06: rendering twice gives the same text"); checkSame(d, m, "D06: rendering changes nothing");
}
