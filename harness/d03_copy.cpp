// D03: copies are equal and independent.
#include "ops.h"
extern "C" void lps_main(void) {
  Gen g; g.budget = lps_param("tree", 3); g.leaves = lps_param("leaves", 31); Datagram d; M m; anyInput(d, m, g);
  Gen g2 = g; g2.budget = lps_param("tree2", 2); Gen go = g; int mode = lps_choose("mode", 5);
  if (mode == 4) { // assign one of its own nested elements
    lps_assume((m.k == KList || m.k == KDict) && !m.items.empty()); unsigned i = pickItem("which", m.items.size()); M sub = m.items[i];
    if (m.k == KList) d = d[i]; else d = d[m.keys[i]];
    checkSame(d, sub, "D03: assigning a nested element yields that element"); anyOp(d, sub, 1, go); checkSame(d, sub, "D03: the result of assigning a nested element is independent"); lps_cover("self-nested"); obsD(d, sub); return; }
  if (mode == 3) { // messages
    Str s1 = anyStr("sender", 1), t1 = anyStr("topic", 1); Message a(s1, t1, d); anyOp(d, m, 1, go); /* must not be visible in a */
    Message b(a); Message c; c = a; lps_assert(b == a && a == b && c == a, "D03: a copied message equals the original");
    Datagram x = b.GetDatagram(); Datagram e; x = e; x["mutated"] = 5; b.PrependSender("p"); Datagram y = a.GetDatagram(), z = c.GetDatagram(), w = b.GetDatagram();
    lps_assert(y == z && z == y, "D03: a copied message is independent of the original"); lps_assert(w == y, "D03: changing a message's returned datagram does not change the message");
    lps_assert(a.GetSender() == s1 && c.GetSender() == s1 && a.GetTopic() == t1 && c.GetTopic() == t1, "D03: a copied message is independent of the original"); lps_cover("message"); return; }
  Datagram c0(d); Datagram c1; M junk; M mc = m;
  if (mode == 1) { anyTree(c1, junk, g2); c1 = d; lps_cover("assign"); } else if (mode == 2) { Datagram c2 = c0; c1 = c2; Datagram e; c2 = e; lps_cover("chain"); }
  Datagram& c = mode == 0 ? c0 : c1; if (mode == 0) lps_cover("construct");
  lps_assert(c == d && d == c, "D03: a copy equals the original"); checkSame(c, m, "D03: a copy has the original's contents");
  if (lps_choose("side", 2)) anyOp(d, m, 2, go); else anyOp(c, mc, 2, go);
  checkSame(d, m, "D03: changing the copy leaves the original alone"); checkSame(c, mc, "D03: changing the original leaves the copy alone"); obsD(d, m); obsD(c, mc);
}
