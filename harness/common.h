// Abstract model of datagrams, and arbitrary (symbolic) trees built through the public interface together with their model.
#pragma once
#include "lps.h"
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include <lamppost/messages/Message.h>
using lp::messages::Datagram; using lp::messages::RawDatagram; using lp::messages::RawDatagramType; using lp::messages::Message;
namespace ex = lp::exceptions;
typedef std::string Str;
enum Kind { KEmpty, KStr, KInt, KDbl, KBool, KList, KDict };
struct M { Kind k = KEmpty; Str s; int i = 0; double d = 0; bool b = false; std::vector<Str> keys; std::vector<M> items;
  void reset() { s.clear(); keys.clear(); items.clear(); i = 0; d = 0; b = false; k = KEmpty; }
  void toList() { if (k != KList) { reset(); k = KList; } }
  void toDict() { if (k != KDict) { reset(); k = KDict; } }
  int find(const Str& x) const { if (k == KDict) for (size_t n = 0; n < keys.size(); n++) if (keys[n] == x) return (int)n; return -1; }
  M& at(const Str& x) { toDict(); size_t n = 0; while (n < keys.size() && keys[n] < x) n++; if (n == keys.size() || !(keys[n] == x)) { keys.insert(keys.begin() + n, x); items.insert(items.begin() + n, M()); } return items[n]; }
};
inline unsigned long long bits(double d) { unsigned long long u; memcpy(&u, &d, 8); return u; }
inline bool isNan(double d) { unsigned long long u = bits(d); return (u & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
// an arbitrary string of at most maxLen bytes (any byte values)
inline Str anyStr(const char* name, unsigned maxLen, unsigned minLen = 0) { size_t n = minLen + lps_choose("len", maxLen - minLen + 1); char b[64]; if (n) lps_sym(b, n, name); return Str(b, n); }
inline Str anyText(const char* name, unsigned maxLen, unsigned minLen = 0) { Str s = anyStr(name, maxLen, minLen); for (char c : s) lps_assume(c != 0); return s; }
static bool gAllowNan = false;
inline double anyDouble(const char* name) { unsigned long long u = lps_val(name); double d; memcpy(&d, &u, 8); if (!gAllowNan) lps_assume(!isNan(d)); return d; }
struct M; inline bool hasNan(const M& m);
// leaf kinds: bit 0 empty, 1 string, 2 int, 3 double, 4 bool
struct Gen { unsigned strLen = 1, keyLen = 1, width = 2, leaves = 31; int budget = 3; bool textKeys = false, containers = true, emptyOnly = false; double fixedDouble = 0; bool concreteDouble = false; };
inline void setLeaf(Datagram& d, M& m, Kind k, const Gen& g) {
  m.reset(); m.k = k;
  switch (k) { case KStr: m.s = g.textKeys ? anyText("s", g.strLen) : anyStr("s", g.strLen); d = m.s; break; case KInt: m.i = (int)lps_val("i"); d = m.i; break;
    case KDbl: m.d = g.concreteDouble ? 0.5 * (1 + (double)lps_choose("d", 3)) : anyDouble("d"); d = m.d; break; case KBool: m.b = lps_range("b", 0, 1) != 0; d = m.b; break; default: break; } }
inline std::shared_ptr<RawDatagram> rawLeaf(M& m, Kind k, const Gen& g) {
  m.reset(); m.k = k;
  switch (k) { case KStr: m.s = g.textKeys ? anyText("s", g.strLen) : anyStr("s", g.strLen); return std::make_shared<RawDatagram>(m.s); case KInt: m.i = (int)lps_val("i"); return std::make_shared<RawDatagram>(m.i);
    case KDbl: m.d = g.concreteDouble ? 0.5 * (1 + (double)lps_choose("d", 3)) : anyDouble("d"); return std::make_shared<RawDatagram>(m.d); case KBool: m.b = lps_range("b", 0, 1) != 0; return std::make_shared<RawDatagram>(m.b);
    case KList: return std::make_shared<RawDatagram>(RawDatagramType::List); case KDict: return std::make_shared<RawDatagram>(RawDatagramType::Dictionary); default: return std::make_shared<RawDatagram>(); } }
inline Kind anyKind(const Gen& g, bool containers) { Kind ks[7]; int n = 0; for (int i = 0; i < 5; i++) if (g.leaves & (1u << i)) ks[n++] = (Kind)i; if (containers) { ks[n++] = KList; ks[n++] = KDict; } return ks[lps_choose("kind", n)]; }
// an arbitrary tree with at most g.budget nodes; the datagram handle must refer to a fresh empty datagram
inline void anyTree(Datagram& d, M& m, Gen& g, int depth = 4) {
  g.budget--; Kind k = anyKind(g, g.containers && depth > 0); m.reset(); m.k = k;
  if (k == KList) {
    unsigned room = g.budget < (int)g.width ? (g.budget > 0 ? g.budget : 0) : g.width; unsigned n = lps_choose("count", room + 1);
    if (n == 0) { d.Add(std::make_shared<RawDatagram>()); d.Clear(); return; }   // an empty list that held an item before
    g.budget -= n; for (unsigned i = 0; i < n; i++) { d.Add(std::make_shared<RawDatagram>()); m.items.push_back(M()); g.budget++; Datagram c = d[i]; anyTree(c, m.items[i], g, depth - 1); } }
  else if (k == KDict) {
    unsigned room = g.budget < (int)g.width ? (g.budget > 0 ? g.budget : 0) : g.width; unsigned n = lps_choose("count", room + 1);
    if (n == 0) { Datagram c = d[Str("x")]; d.Clear(); return; }
    g.budget -= n; for (unsigned i = 0; i < n; i++) { Str key = g.textKeys ? anyText("key", g.keyLen) : anyStr("key", g.keyLen); for (auto& o : m.keys) lps_assume(!(o == key)); g.budget++; Datagram c = d[key]; anyTree(c, m.at(key), g, depth - 1); } }
  else setLeaf(d, m, k, g);
}
// a large input of n items or levels, all fixed except for one arbitrary leaf (and possibly one item fewer)
inline void fixedLeaf(Datagram& c, M& x, unsigned i) { x.reset(); x.k = (Kind)(1 + i % 4); switch (x.k) { case KStr: x.s = Str(i % 19, 'a' + i % 26); c = x.s; break; case KInt: x.i = (int)i * 77777 - 300; c = x.i; break; case KDbl: x.d = i * 0.5 - 1; c = x.d; break; default: x.b = i & 4; c = x.b; } }
inline void deepTree(Datagram& d, M& m, Gen& g, unsigned n) { if (!n) { setLeaf(d, m, anyKind(g, false), g); return; } if (n % 3 && !lps_param("chain", 0)) { m.toList(); m.items.push_back(M()); d.Add(std::make_shared<RawDatagram>()); Datagram c = d[0u]; deepTree(c, m.items[0], g, n - 1); } else { M& x = m.at("k"); Datagram c = d[Str("k")]; deepTree(c, x, g, n - 1); } }
inline Str bulkKey(unsigned i) { char k[5] = {'k', (char)('a' + (i * 7) % 26), (char)('a' + i % 26), (char)('0' + i / 26), 0}; return k; }
inline void bulkTree(Datagram& d, M& m, Gen& g, unsigned n, unsigned shape, unsigned at, unsigned depth) {
  if (shape == 0) { m.toList(); for (unsigned i = 0; i < n; i++) { m.items.push_back(M()); d.Add(std::make_shared<RawDatagram>()); Datagram c = d[i]; if (i == at) setLeaf(c, m.items[i], anyKind(g, false), g); else fixedLeaf(c, m.items[i], i); } }
  else if (shape == 1) { for (unsigned i = 0; i < n; i++) { Str k = bulkKey(i); Datagram c = d[k]; M& x = m.at(k); if (i == at) setLeaf(c, x, anyKind(g, false), g); else fixedLeaf(c, x, i); } }
  else if (shape == 2) deepTree(d, m, g, depth);
  else { m.reset(); m.k = KStr; char b[4]; lps_sym(b, 4, "s"); m.s = Str(n - 4, 'z'); m.s.insert(at, Str(b, 4)); d = m.s; } }
inline unsigned pickItem(const char* name, unsigned n) { if (n <= 8) return lps_choose(name, n); unsigned a[3] = {0, n / 2, n - 1}; return a[lps_choose(name, 3)]; }
inline unsigned bulkAt(unsigned n) { unsigned a[4] = {0, n / 2, n - 5, n - 1}; return a[lps_choose("at", 3)]; }
inline void anyInput(Datagram& d, M& m, Gen& g) { unsigned n = lps_param("bulk", 0); if (!n) { anyTree(d, m, g); return; } unsigned shape = lps_choose("shape", 4); bulkTree(d, m, g, n, shape, shape == 2 ? 0 : bulkAt(n), lps_param("deep", 40)); }
inline RawDatagramType typeOf(Kind k) { return k == KEmpty ? RawDatagramType::Empty : k == KList ? RawDatagramType::List : k == KDict ? RawDatagramType::Dictionary : RawDatagramType::Value; }
static bool gSignedZeroSame = false;   // +0.0 and -0.0 count as the same value
// contents seen through the public interface are those of the model
inline void checkSame(Datagram& d, const M& m, const char* msg) {
  bool kind = d.GetType() == typeOf(m.k); lps_assert(kind, msg); if (!kind) return;
  lps_assert(d.IsEmpty() == (m.k == KEmpty), msg);
  try {
    switch (m.k) {
      case KStr: lps_assert(d.Get<Str>() == m.s, msg); break; case KInt: lps_assert(d.Get<int>() == m.i, msg); break;
      case KDbl: { double v = d.Get<double>(); lps_assert(gSignedZeroSame ? v == m.d : bits(v) == bits(m.d), msg); } break; case KBool: lps_assert(d.Get<bool>() == m.b, msg); break;
      case KList: { unsigned n = d.GetCount(); lps_assert(n == m.items.size(), msg); for (unsigned i = 0; i < m.items.size(); i++) { Datagram c = d[i]; checkSame(c, m.items[i], msg); } break; }
      case KDict: { unsigned n = d.GetCount(); lps_assert(n == m.items.size(), msg); for (unsigned i = 0; i < m.items.size(); i++) { lps_assert(d.KeyExists(m.keys[i]), msg); Datagram c = d[m.keys[i]]; checkSame(c, m.items[i], msg); } break; }
      default: break; }
  } catch (ex::Exception&) { lps_fail(msg); }
}
inline bool sameModel(const M& a, const M& b) {
  if (a.k != b.k) return false;
  switch (a.k) { case KEmpty: return true; case KStr: return a.s == b.s; case KInt: return a.i == b.i; case KDbl: return a.d == b.d; case KBool: return a.b == b.b;
    case KList: { if (a.items.size() != b.items.size()) return false; bool r = true; for (size_t i = 0; i < a.items.size(); i++) r = r & sameModel(a.items[i], b.items[i]); return r; }
    case KDict: { if (a.items.size() != b.items.size()) return false; bool r = true; for (size_t i = 0; i < a.items.size(); i++) r = r & (a.keys[i] == b.keys[i]) & sameModel(a.items[i], b.items[i]); return r; } }
  return false; }
inline bool hasNan(const M& m) { if (m.k == KDbl) return isNan(m.d); bool r = false; for (auto& x : m.items) r = r | hasNan(x); return r; }
inline void obsM(const M& m) { lps_obs("k", m.k); switch (m.k) { case KStr: lps_obs_bytes("s", m.s.data(), m.s.size()); break; case KInt: lps_obs("i", (unsigned)m.i); break; case KDbl: lps_obs("d", bits(m.d)); break; case KBool: lps_obs("b", m.b); break; default: for (size_t i = 0; i < m.items.size(); i++) { if (m.k == KDict) lps_obs_bytes("key", m.keys[i].data(), m.keys[i].size()); obsM(m.items[i]); } } }
// what the implementation reports, as an observation for comparing the executor with the native run
inline void obsD(Datagram& d, const M& shape) { lps_obs("t", (int)d.GetType()); switch (shape.k) { case KStr: { Str s = d.Get<Str>(); lps_obs_bytes("s", s.data(), s.size()); break; } case KInt: lps_obs("i", (unsigned)d.Get<int>()); break; case KDbl: lps_obs("d", bits(d.Get<double>())); break; case KBool: lps_obs("b", d.Get<bool>()); break;
    case KList: for (unsigned i = 0; i < shape.items.size(); i++) { Datagram c = d[i]; obsD(c, shape.items[i]); } break; case KDict: for (unsigned i = 0; i < shape.items.size(); i++) { Datagram c = d[shape.keys[i]]; obsD(c, shape.items[i]); } break; default: break; } }
