// An arbitrary valid operation on a datagram (or on one of its items), mirrored on the model.
#pragma once
#include "common.h"
// an operation on d itself or on one of its items
inline void anyOp(Datagram& d, M& m, int depth, Gen& g) {
  bool down = depth > 0 && (m.k == KList || m.k == KDict) && !m.items.empty();
  enum { OAdd, OKeyAssign, OKeyTouch, OAssign, OClear, ORemove, OIndexAssign, OCount, OLookup, OAddTree, ODown };
  switch (lps_choose("op", down ? 11 : 10)) {
    case OAdd: { m.toList(); m.items.push_back(M()); M& x = m.items.back(); d.Add(rawLeaf(x, anyKind(g, false), g)); lps_cover("add"); break; }
    case OAddTree: { m.toList(); m.items.push_back(M()); M& x = m.items.back(); d.Add(rawLeaf(x, lps_choose("dict", 2) ? KDict : KList, g)); lps_cover("add-container"); break; }
    case OKeyAssign: { Str key = anyStr("key", g.keyLen); M& x = m.at(key); Datagram c = d[key]; Kind k = anyKind(g, false); if (k == KEmpty) { Datagram e; c = e; x.reset(); } else setLeaf(c, x, k, g); lps_cover("key-assign"); break; }
    case OKeyTouch: { Str key = anyStr("key", g.keyLen); m.at(key); Datagram c = d[key]; lps_cover("key-touch"); break; }
    case OAssign: { Kind k = anyKind(g, false); if (k == KEmpty) { Datagram e; d = e; m.reset(); } else if (k == KInt && lps_choose("shared", 2)) { m.reset(); m.k = KInt; m.i = (int)lps_val("i"); std::shared_ptr<lp::messages::DataBase> v = std::make_shared<lp::messages::Data<int>>(m.i); d = v; } else setLeaf(d, m, k, g); lps_cover("assign"); break; }
    case OClear: if (m.k != KList && m.k != KDict) lps_assume(false); d.Clear(); m.items.clear(); m.keys.clear(); lps_cover("clear"); break;
    case ORemove: if ((m.k != KList && m.k != KDict) || m.items.empty()) lps_assume(false);
      if (m.k == KList) { unsigned i = m.items.size() > 8 ? pickItem("index", m.items.size()) : lps_range("index", 0, m.items.size() - 1); d.Remove(i); m.items.erase(m.items.begin() + lps_concretize(i)); lps_cover("remove-index"); }
      else { Str key = anyStr("key", g.keyLen); int i = m.find(key); lps_assume(i >= 0); d.Remove(key); m.items.erase(m.items.begin() + i); m.keys.erase(m.keys.begin() + i); lps_cover("remove-key"); } break;
    case OIndexAssign: { if (m.k != KList || m.items.empty()) lps_assume(false); unsigned i = m.items.size() > 8 ? pickItem("index", m.items.size()) : lps_range("index", 0, m.items.size() - 1); Datagram c = d[i]; M& x = m.items[lps_concretize(i)]; Kind k = anyKind(g, false); if (k == KEmpty) { Datagram e; c = e; x.reset(); } else setLeaf(c, x, k, g); lps_cover("index-assign"); break; }
    case OCount: if (m.k != KList && m.k != KDict) lps_assume(false); lps_assert(d.GetCount() == m.items.size(), "D01: counting reports the number of items"); break;
    case OLookup: { Str key = anyStr("key", g.keyLen); lps_assert(d.KeyExists(key) == (m.find(key) >= 0), "D01: a key exists exactly when an item is stored under it"); break; }
    case ODown: { if (m.k == KList) { unsigned i = pickItem("item", m.items.size()); Datagram c = d[i]; anyOp(c, m.items[i], depth - 1, g); } else { unsigned i = pickItem("item", m.items.size()); Datagram c = d[m.keys[i]]; anyOp(c, m.items[i], depth - 1, g); } lps_cover("nested"); break; }
  }
}
