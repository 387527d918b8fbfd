// S01: messages survive serialisation.
#include "common.h"
extern "C" void lps_main(void) {
  gSignedZeroSame = true;
  Gen g; g.budget = lps_param("tree", 3); g.leaves = lps_param("leaves", 31); g.strLen = lps_param("strlen", 2); Datagram d; M m; 
  if (unsigned n = lps_param("long", 0)) { unsigned k = lps_choose("many", 3); // many items, long strings
    // one item is arbitrary, the others are fixed
    unsigned f = lps_choose("arbitrary", n); auto leaf = [&](Datagram& c, M& x, unsigned i) { Kind kk = (Kind)(1 + i % 4); if (i == f) { setLeaf(c, x, kk, g); return; } x.k = kk; switch (kk) { case KStr: x.s = Str(i % 19, 'a' + i % 26); c = x.s; break; case KInt: x.i = (int)i * 77777 - 300; c = x.i; break; case KDbl: x.d = i * 0.37 - 1; c = x.d; break; default: x.b = i & 4; c = x.b; } };
    if (k == 0) { m.toList(); for (unsigned i = 0; i < n; i++) { M x; d.Add(std::make_shared<RawDatagram>()); Datagram c = d[i]; leaf(c, x, i); m.items.push_back(x); } }
    else if (k == 1) { for (unsigned i = 0; i < n; i++) { char key[3] = {(char)('a' + (i * 11) % 26), (char)('a' + i % 26), 0}; Datagram c = d[Str(key)]; leaf(c, m.at(key), i); } }
    else { char b[64]; Str s; while (s.size() < n * 8) { lps_sym(b, 32, "s"); s += Str(b, 32); } m.k = KStr; m.s = s; d = s; } }
  else anyInput(d, m, g);
  Str s = anyStr("sender", lps_param("namelen", 1)), t = anyStr("topic", lps_param("namelen", 1)); Message a(s, t, d);
  auto bytes = a.SerializeToBytes(); Message b = Message::Deserialize(bytes);
  lps_assert(b.GetSender() == s, "S01: the sender survives"); lps_assert(b.GetTopic() == t, "S01: the topic survives"); Datagram e = b.GetDatagram(); checkSame(e, m, "S01: the datagram survives"); lps_assert(b == a, "S01: the decoded message equals the original");
  lps_assert(a.GetSender() == s && a.GetTopic() == t, "S01: serialising changes nothing"); Datagram f = a.GetDatagram(); checkSame(f, m, "S01: serialising changes nothing"); obsD(e, m); lps_obs("size", bytes->GetSize());
}
