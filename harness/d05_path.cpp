// D05: path lookup.
#include "common.h"
static const M* follow(const M& root, const Str& path) { const M* c = &root; Str p = path; while (!p.empty()) { size_t n = 0; while (n < p.size() && p[n] != '/') n++; Str step = p.substr(0, n); p = n < p.size() ? p.substr(n + 1) : Str(); int i = c->find(step); if (i < 0) return nullptr; c = &c->items[i]; } return c; }
extern "C" void lps_main(void) {
  Gen g; g.budget = lps_param("tree", 3); g.leaves = lps_param("leaves", 31); g.keyLen = lps_param("keylen", 1); Datagram d; M m; anyInput(d, m, g);
  Str path; if (unsigned n = lps_param("bulk", 0)) { if (m.k == KDict && m.items.size() > 1) path = bulkKey(lps_choose("key", 2) ? n - 1 : n / 2); else if (lps_param("chain", 0)) { Str p; const M* c = &m; while (c->k == KDict && !c->items.empty()) { if (!p.empty()) p += '/'; p += c->keys[0]; c = &c->items[0]; } path = p; } if (!path.empty() && lps_choose("end", 2)) { char b; lps_sym(&b, 1, "c"); path[lps_choose("pos", 2) ? path.size() - 1 : path.size() / 2] = b; } }
  else path = anyStr("path", lps_param("pathlen", 3)); const M* t = follow(m, path);
  switch (lps_choose("type", 4)) {
    case 0: { Str def = anyStr("default", 1); Str got; try { got = d.Get<Str>(path, def); } catch (...) { lps_fail("D05: a path lookup raised an error"); } lps_assert(got == (t && t->k == KStr ? t->s : def), "D05: the value at the path or the default"); lps_obs_bytes("r", got.data(), got.size()); break; }
    case 1: { int def = (int)lps_val("default"); int got = 0; try { got = d.Get<int>(path, def); } catch (...) { lps_fail("D05: a path lookup raised an error"); } lps_assert(got == (t && t->k == KInt ? t->i : def), "D05: the value at the path or the default"); lps_obs("r", (unsigned)got); break; }
    case 2: { double def = anyDouble("default"); double got = 0; try { got = d.Get<double>(path, def); } catch (...) { lps_fail("D05: a path lookup raised an error"); } lps_assert(bits(got) == bits(t && t->k == KDbl ? t->d : def), "D05: the value at the path or the default"); lps_obs("r", bits(got)); break; }
    case 3: { bool def = lps_range("default", 0, 1); bool got = false; try { got = d.Get<bool>(path, def); } catch (...) { lps_fail("D05: a path lookup raised an error"); } lps_assert(got == (t && t->k == KBool ? t->b : def), "D05: the value at the path or the default"); lps_obs("r", got); break; } }
  if (t) lps_cover("found"); if (t && t != &m && m.k == KDict && path.size() > 2) lps_cover("deep");
  checkSame(d, m, "D05: a path lookup changes nothing");
}
