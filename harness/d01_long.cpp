// D01 on large containers: N items, then removals and accesses at arbitrary positions.
#include "common.h"
extern "C" void lps_main(void) {
  unsigned N = lps_param("n", 24); Datagram d; M m;
  bool dict = lps_choose("dict", 2);
  for (unsigned i = 0; i < N; i++) { int v = N > 100 ? (int)i * 3 : (int)lps_val("v");
    if (dict) { char k[4] = {'k', (char)('A' + (i * 7) % 26), (char)('!' + i / 26), 0}; d[Str(k)] = v; M& x = m.at(k); x.k = KInt; x.i = v; }
    else { m.toList(); d.Add(std::make_shared<RawDatagram>(v)); M x; x.k = KInt; x.i = v; m.items.push_back(x); } }
  checkSame(d, m, "D01: contents are those of the abstract container");
  for (int r = 0; r < (int)lps_param("removals", 1); r++) {
    unsigned i; if (N > 100) { unsigned p[3] = {0, N / 2, N - 2}; i = p[lps_choose("at", 3)]; } else { i = lps_range("index", 0, m.items.size() - 1); i = lps_concretize(i); }
    if (dict) { d.Remove(m.keys[i]); m.keys.erase(m.keys.begin() + i); } else d.Remove(i);
    m.items.erase(m.items.begin() + i); lps_cover(dict ? "key" : "index"); }
  checkSame(d, m, "D01: contents are those of the abstract container");
  switch (lps_choose("then", 3)) {
    case 0: d.Clear(); m.items.clear(); m.keys.clear(); break;
    case 1: { Str s = "x"; d = s; m.reset(); m.k = KStr; m.s = s; break; }
    case 2: if (dict) { m.toList(); m.items.push_back(M()); d.Add(std::make_shared<RawDatagram>()); } else { m.at("z"); Datagram c = d[Str("z")]; } break; }
  checkSame(d, m, "D01: contents are those of the abstract container");
  // using it as a dictionary or a list again must not bring anything back
  if (lps_choose("back", 2)) { if (m.k == KDict) { m.toList(); m.items.push_back(M()); d.Add(std::make_shared<RawDatagram>()); } else { m.toDict(); m.at("y"); Datagram c = d[Str("y")]; } checkSame(d, m, "D01: replaced contents do not reappear"); }
  obsD(d, m);
}
