// S03: JSON documents become datagrams of the same structure; text the parser rejects becomes an empty datagram.
#include "jsondoc.h"
static void anyJson(M& m, int& budget, int depth, unsigned slen, unsigned leaves) {
  budget--; Gen g; g.leaves = leaves; m.k = anyKind(g, depth > 0);
  switch (m.k) { case KStr: m.s = anyStr("s", slen); break; case KInt: m.i = (int)lps_val("i"); break; case KBool: m.b = lps_range("b", 0, 1); break;
    case KDbl: m.d = anyDouble("d"); lps_assume(((bits(m.d) >> 52) & 2047) != 2047); break;
    case KList: case KDict: { unsigned n = lps_choose("count", (budget < 3 ? (budget > 0 ? budget : 0) : 3) + 1); budget -= n;
      for (unsigned i = 0; i < n; i++) { budget++; M c; anyJson(c, budget, depth - 1, slen, leaves); if (m.k == KList) m.items.push_back(c); else { Str k = anyText("key", 1); for (auto& o : m.keys) lps_assume(!(o == k)); m.at(k) = c; } } break; }
    default: break; } }
static void released() {   // S05: nothing is left behind once the datagram is gone
  M w; int b = 3; w.toList(); w.items.push_back(M()); w.items[0].k = KStr; w.items[0].s = "warm"; w.items.push_back(M()); w.items[1].at("k").k = KBool; M m; int budget = lps_param("nodes", 4); bool bad = lps_param("bad", 0); if (!bad) anyJson(m, budget, lps_param("depth", 3), lps_param("slen", 2), lps_param("leaves", 31));
  Str wt = jsonDoc(w), t = bad ? badJson() : jsonDoc(m); { Datagram d = Datagram::DeserializeFromJson(wt); }
  uint64_t before = lps_live_heap(); { Datagram d = Datagram::DeserializeFromJson(t); lps_assert(!bad || d.IsEmpty(), "S05: rejected text becomes an empty datagram"); } lps_assert(lps_live_heap() == before, "S05: the parser and the parsed document are released");
  for (int i = 0; i < 2; i++) { Datagram d = Datagram::DeserializeFromJson(t); Datagram c(d); c["more"] = 1; d = c; } lps_assert(lps_live_heap() == before, "S05: the parser and the parsed document are released");
  { Datagram d = Datagram::DeserializeFromJson(t), e = Datagram::DeserializeFromJson(t); gSignedZeroSame = true; if (!bad) { checkSame(d, m, "S05: the datagram outlives the document"); } lps_assert(bad || hasNan(m) || d == e, "S05: the same text gives the same datagram"); } lps_cover(bad ? "rejected" : "accepted"); }
extern "C" void lps_main(void) {
  if (lps_param("released", 0)) { released(); return; }
  if (lps_param("bad", 0)) { Str t = badJson(); Datagram d = Datagram::DeserializeFromJson(t); lps_assert(d.GetType() == RawDatagramType::Empty, "S03: rejected text becomes an empty datagram"); lps_cover("rejected"); lps_obs("ok", 1); return; }
  M m; int budget = lps_param("nodes", 4); anyJson(m, budget, lps_param("depth", 3), lps_param("slen", 2), lps_param("leaves", 31));
  Str t = jsonDoc(m); Datagram d = Datagram::DeserializeFromJson(t);
  gSignedZeroSame = true; checkSame(d, m, "S03: the datagram has the document's structure and values"); obsD(d, m); if (m.k == KDict && m.items.size() > 1) lps_cover("object"); if (m.k == KList && m.items.size() > 1) lps_cover("array");
}
