// D07: datagrams, messages and byte buffers release all the memory they took, whatever was done with them.
#include "ops.h"
#include <lamppost/data/RawBytes.h>
static void misuse(Datagram& d, const M& m) {
  try { switch (lps_choose("misuse", 4)) { case 0: if (m.k != KStr) d.Get<Str>(); break; case 1: d.Remove("absent"); break; case 2: d.Remove(7u); break; default: { Datagram c = d[9u]; break; } } } catch (ex::Exception&) { lps_cover("rejected operation"); } }
static void buffers(unsigned L) {
  char src[64]; lp::data::RawBytes a; std::shared_ptr<lp::data::RawBytes> b; unsigned n = lps_choose("len", L + 1); memset(src, 'x', sizeof src); if (lps_choose("from", 2)) b = std::make_shared<lp::data::RawBytes>((void*)src, (size_t)n); else b = std::make_shared<lp::data::RawBytes>();
  for (unsigned i = 0; i < 3; i++) { unsigned k = lps_choose("len", L + 1); if (b->GetContent() && lps_choose("self", 2)) b->Append(b->GetContent(), b->GetSize()); else b->Append(src, k); if (b->GetContent()) a.Append(b->GetContent(), b->GetSize()); }
  if (lps_choose("copied", 2)) { lp::data::RawBytes c(*b), d; d = a; d = c; c = c; c = a; c.Append(src, 1); }
  try { lp::data::RawBytes z(nullptr, (size_t)3); } catch (ex::Exception&) {} lps_cover("buffer"); }
static void scope(unsigned mode) {
  if (mode == 3) { buffers(lps_param("len", 3)); return; }
  Gen g; g.budget = lps_param("tree", 2); g.leaves = lps_param("leaves", 31); Datagram d; M m; anyInput(d, m, g); Gen go = g;
  if (mode == 0) { for (int k = 0; k < (int)lps_param("ops", 2); k++) anyOp(d, m, 1, go); misuse(d, m); Datagram c(d); Datagram e; e = c; c["own"] = e; c.Clear(); if ((m.k == KList || m.k == KDict) && !m.items.empty()) { if (m.k == KList) d = d[0u]; else d = d[m.keys[0]]; lps_cover("nested"); } else { Datagram n; n["self"] = d; d = n; } lps_assert(!(d == e) || m.k == KEmpty || d == d, "D07"); Datagram p; p["l"].Add(std::make_shared<RawDatagram>(Str("x"))); std::ostringstream o; o << p; lps_cover("operations"); return; }
  Str s = anyStr("sender", 1), t = anyStr("topic", 1); Message a(s, t, d), z; z = a; z.PrependSender("p"); auto raw = a.SerializeToBytes();
  if (mode == 1) { Message b = Message::Deserialize(raw); lps_assert(b.GetTopic() == t, "D07: a decoded message is usable"); Datagram x = b.GetDatagram(); x["more"] = 1; b = z; lps_cover("serialised"); return; }
  if (mode == 2) { Str buf((const char*)raw->GetContent(), raw->GetSize()); unsigned cut = lps_choose("cut", buf.size()); buf.resize(cut); auto bytes = std::make_shared<lp::data::RawBytes>(); bytes->Append(buf.data(), buf.size()); try { Message b = Message::Deserialize(bytes); Datagram x = b.GetDatagram(); lps_cover("truncated but accepted"); } catch (ex::Exception&) { lps_cover("refused"); } return; }
}
extern "C" void lps_main(void) {
  int only = lps_param("mode", -1);
  { Datagram d; d["a"] = 1; d["b"] = Str("s"); d.Clear(); Message m("s", "t", d); Message b = Message::Deserialize(m.SerializeToBytes()); try { d.Get<int>(); } catch (ex::Exception&) {} std::ostringstream o; o << d; }   // whatever is set up once
  uint64_t before = lps_live_heap(); scope(only >= 0 ? (unsigned)only : (unsigned)lps_choose("mode", 4)); uint64_t after = lps_live_heap();
  lps_assert(after == before, "D07: everything allocated was released"); lps_obs("done", 1);
}
