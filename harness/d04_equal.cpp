// D04: equality is equality of contents.
#include "common.h"
#include <lamppost/messages/Data.h>
using lp::messages::Data;
extern "C" void lps_main(void) {
  gAllowNan = true; Gen g; g.leaves = lps_param("leaves", 31);
  if (lps_param("messages", 0)) {
    unsigned L = lps_param("strlen", 2); Str s1 = anyStr("sender", L), t1 = anyStr("topic", L), s2 = anyStr("sender", L), t2 = anyStr("topic", L); Datagram d, e; M m, n; g.budget = 1; g.containers = false; anyTree(d, m, g); g.budget = 1; anyTree(e, n, g);
    Message a(s1, t1, d), b(s2, t2, e); bool want = (s1 == s2) & (t1 == t2) & sameModel(m, n); lps_assert((a == b) == want, "D04: messages are equal exactly when sender, topic and datagram are"); lps_assert((b == a) == want, "D04: message equality is symmetric"); lps_cover("messages"); lps_obs("eq", a == b);
    if (m.k == KInt && n.k == KInt) { Data<int> x(m.i), y(n.i); lps_assert((x == y) == (m.i == n.i) && (x != y) == (m.i != n.i), "D04: value equality and its negation"); }
    if (m.k == KStr && n.k == KStr) { Data<Str> x(m.s), y(n.s); lps_assert((x == y) == (m.s == n.s) && (x != y) == !(m.s == n.s), "D04: value equality and its negation"); }
    return; }
  auto r1 = std::make_shared<RawDatagram>(), r2 = std::make_shared<RawDatagram>(); Datagram d(r1), e(r2); M m, n;
  unsigned bulk = lps_param("bulk", 0); if (!bulk) {
  g.budget = lps_param("tree", 3); anyTree(d, m, g); g.budget = lps_param("tree", 3); anyTree(e, n, g); }
  if (bulk) { unsigned shape = lps_choose("shape", 4), at = shape == 2 ? 0 : bulkAt(bulk), deep = lps_param("deep", 40); bulkTree(d, m, g, bulk, shape, at, deep); bool other = lps_choose("size", 2); bulkTree(e, n, g, bulk + (other && shape < 2), shape, at, deep + other); }
  bool want = sameModel(m, n);
  lps_assert((d == e) == want, "D04: equal exactly when the contents are equal"); lps_assert((e == d) == want, "D04: equality is symmetric");
  lps_assert((*r1 == *r2) == want && (*r1 != *r2) == !want && (*r2 != *r1) == !want, "D04: inequality is the negation of equality"); lps_assert((d == d) == !hasNan(m), "D04: a datagram equals itself unless it holds a double that is not a number");
  checkSame(d, m, "D04: comparing changes nothing"); checkSame(e, n, "D04: comparing changes nothing"); lps_obs("eq", d == e); if (m.k == n.k) lps_cover("same-kind");
}
