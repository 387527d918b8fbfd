// U02: generated identifiers are well-formed, whatever the random source returns.
#include "common.h"
#include <lamppost/utilities/Uuid.h>
using lp::utilities::Uuid;
extern "C" void lps_main(void) {
  // all random outputs but one have their highest digit set, so that the text lengths are not all combined
  lps_choose("focus", lps_param("randpair", 0) ? 8 : lps_param("two", 0) ? 17 : 9);
  Uuid u = Uuid::CreateUuid(); Str s = u; lps_assert(!s.empty(), "U02: not empty");
  std::vector<Str> g(1); bool hex = true; for (char c : s) { if (c == '-') g.push_back(Str()); else { hex = hex & (((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f'))); g.back() += c; } } lps_assert(hex, "U02: lower-case hexadecimal digits");
  lps_assert(g.size() == 5, "U02: five groups"); bool all = true; for (auto& x : g) all = all & !x.empty(); lps_assert(all, "U02: no group is empty");
  lps_assert(g[2].size() == 4 && g[2][0] == '4', "U02: the third group marks version 4"); char v = g[3].empty() ? 0 : g[3][0]; lps_assert(g[3].size() == 4 && ((v == '8') | (v == '9') | (v == 'a') | (v == 'b')), "U02: the fourth group marks the standard variant");
  Uuid c = u; lps_assert(c == u, "U02: an identifier equals its copy"); Uuid e, f; lps_assert(e == f, "U02: equal exactly when the texts are"); lps_assert(!(e == u) && !(u == e), "U02: equal exactly when the texts are"); std::ostringstream o; o << u; lps_assert(o.str() == s, "U02: the text is what is written"); lps_obs_bytes("uuid", s.data(), s.size());
  if (lps_param("two", 0)) { Uuid w = Uuid::CreateUuid(); Str t = w; lps_assert((w == u) == (t == s), "U02: equal exactly when the texts are"); lps_assert((u == w) == (t == s), "U02: equal exactly when the texts are"); }
}
