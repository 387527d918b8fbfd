// U03: configurations compare equal exactly when their contents are equal.
#include "common.h"
#include <lamppost/LampPostConfiguration.h>
typedef std::list<Str> LS;
static LS anyList(unsigned n, unsigned len) { LS l; unsigned k = lps_choose("count", n + 1); for (unsigned i = 0; i < k; i++) l.push_back(anyStr("path", len)); return l; }
extern "C" void lps_main(void) {
  unsigned N = lps_param("n", 2), L = lps_param("len", 1); auto b1 = std::make_shared<lp::bus::Bus>("a"), b2 = std::make_shared<lp::bus::Bus>("b"); std::shared_ptr<lp::bus::Bus> bs[3] = {nullptr, b1, b2};
  unsigned x = lps_choose("bus", 3), y = lps_choose("bus", 3); LS p = anyList(N, L), q = anyList(N, L); lp::PluginManagerConfiguration a(p, bs[x]), b(q, bs[y]);
  auto eq = [](const LS& u, const LS& v) { if (u.size() != v.size()) return false; bool r = true; auto j = v.begin(); for (auto& i : u) { r = r & (i == *j); ++j; } return r; };
  bool want = (x == y) & eq(p, q);
  lps_assert((a == b) == want, "U03: equal exactly when bus and search paths are"); lps_assert((b == a) == want, "U03: equality is symmetric"); lps_assert((a != b) == !want && (b != a) == !want, "U03: inequality is the negation of equality"); lps_assert(a == a && !(a != a), "U03: a configuration equals itself");
  if (want) lps_cover("equal"); else lps_cover("different"); lps_obs("eq", want);
  if (lps_param("files", 0)) { LS f = anyList(2, 1), h = anyList(2, 1); lp::LampPostConfiguration c(a, f), d(b, h); bool w = want & eq(f, h); lps_assert((c == d) == w && (d == c) == w && (c != d) == !w, "U03: instance configurations are equal exactly when their parts are"); }
}
