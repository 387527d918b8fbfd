// D08: separate objects may be used by separate threads at once, and one datagram may be read by several.
#include "ops.h"
#include <lamppost/utilities/AntMatcher.h>
#include <lamppost/utilities/Uuid.h>
#include <thread>
static void readIt(const Datagram& shared, Datagram& d, const M& m, unsigned how) {
  switch (how) {
    case 0: { Datagram c(d); checkSame(c, m, "D08: a copy taken while others read has the contents"); break; }
    case 1: { Datagram c(d); bool eq = shared == c; lps_assert(eq, "D08: a comparison while others read is right"); break; }
    case 2: checkSame(d, m, "D08: several threads read the contents"); break;
    case 3: { Message x("s", "t", d); auto b = x.SerializeToBytes(); Message y = Message::Deserialize(b); Datagram c = y.GetDatagram(); checkSame(c, m, "D08: what is serialised while others read has the contents"); break; }
    case 4: { std::ostringstream o; o << shared; Str t = o.str(); lps_assert(!t.empty(), "D08: text is written while others read"); break; }
    case 5: { if (m.k == KDict) for (size_t i = 0; i < m.keys.size(); i++) if (m.items[i].k == KInt && m.keys[i].find('/') == Str::npos && !m.keys[i].empty()) lps_assert(d.Get<int>(m.keys[i], 77) == m.items[i].i, "D08: a path is looked up while others read"); lps_assert(!d.KeyExists("nope"), "D08: keys are looked up while others read"); break; } }
}
extern "C" void lps_main(void) {
  unsigned mode = lps_param("mode", 0); Gen g; g.budget = (int)lps_param("tree", 2); g.leaves = lps_param("leaves", 7); g.textKeys = true;
  if (mode == 2) {   // each thread has its own objects
    auto work = [](unsigned what, Str* out) { switch (what) {
      case 0: { Str u = lp::utilities::Uuid::CreateUuid(); lps_assert(u.size() >= 8 && u.find('-') != Str::npos, "D08: identifiers are generated"); break; }
      case 1: { bool y = lp::utilities::AntMatcher::Matches("abc", "abc"), n = lp::utilities::AntMatcher::Matches("abc", "abd"); lps_assert(y && !n, "D08: topics are matched"); break; }
      case 2: { Message x("a", "t", Datagram(4)); x.PrependSender("b"); bool was = x.WasSentBySender("b"); lps_assert(was && x.GetSender() == "b/a", "D08: senders are changed"); x.RemoveSender("b"); *out = x.GetSender(); lps_assert(*out == "a", "D08: senders are changed"); break; }
      case 3: { Datagram d; d["k"]["l"] = 5; d["m"].Add(std::make_shared<RawDatagram>(1)); Message x("a", "t", d); Message y = Message::Deserialize(x.SerializeToBytes()); bool eq = x == y; lps_assert(eq, "D08: messages are serialised and decoded"); break; }
      case 4: { lp::data::RawBytes b; char c[3] = {1, 2, 3}; b.Append(c, 3); b.Append(c, 2); lps_assert(b.GetSize() == 5 && ((const char*)b.GetContent())[4] == 2, "D08: bytes are appended"); break; }
      case 5: { Datagram d; std::ostringstream o; d["a"] = 1; o << d; *out = o.str(); lps_assert(out->size() > 3, "D08: text is written"); break; }
      case 6: { auto bad = std::make_shared<lp::data::RawBytes>(); char c[3] = {1, 2, 3}; bad->Append(c, 3); bool thrown = false; try { Message::Deserialize(bad); } catch (std::exception&) { thrown = true; } Datagram d(5); try { d.GetCount(); thrown = false; } catch (ex::Exception&) {} lps_assert(thrown, "D08: misuse is rejected"); break; } } };
    unsigned a = lps_choose("what", 7), b = lps_choose("what", 7); Str o1, o2; std::thread t([&] { work(a, &o1); }); work(b, &o2); t.join(); if (a == b) lps_assert(o1 == o2, "D08: what one thread does is independent of the other"); lps_cover("own objects"); lps_obs("a", a * 8 + b); return; }
  Datagram x; M m; anyTree(x, m, g);
  if (mode == 1) { unsigned a = lps_choose("how", 6), b = lps_choose("how", 6); const Datagram& s = x; Datagram& d = x; std::thread t([&] { readIt(s, d, m, a); }); readIt(s, d, m, b); t.join(); checkSame(x, m, "D08: reading changes nothing"); lps_cover("readers"); obsD(x, m); return; }
  Datagram y(x), z(x); M my = m; Message msg("s", "t", x); M mx = m; unsigned handOver = lps_choose("hand-over", 3);   // the other thread gets a copy, a message, or a message's datagram
  Gen g2 = g; g2.budget = 1; g2.leaves = 4;
  std::thread t([&] { Gen q = g2; if (handOver == 0) anyOp(y, my, 1, q); else if (handOver == 1) { Message own = msg; Datagram d = own.GetDatagram(); checkSame(d, my, "D08: a message handed to another thread keeps its contents"); anyOp(d, my, 1, q); checkSame(d, my, "D08: what a thread does to its copy is done"); my = m; } else { Datagram d = z; checkSame(d, m, "D08: a copy taken by another thread has the contents"); } });
  Gen q = g2; anyOp(x, mx, 1, q); t.join();
  checkSame(x, mx, "D08: what a thread does to its copy is done"); checkSame(y, my, "D08: what a thread does to its copy is done"); checkSame(z, m, "D08: copies used by other threads change nothing here"); lps_cover("copies"); obsD(x, mx);
}
