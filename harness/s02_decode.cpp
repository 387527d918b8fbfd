// S02: decoding arbitrary bytes is memory-safe; it succeeds or is rejected.
#include "common.h"
static void build(Datagram& d, unsigned shape) {
  switch (shape) { case 0: break; case 1: d = Str("abc"); break; case 2: d = 7; break; case 3: d = 2.5; break; case 4: d = true; break;
    case 5: d.Add(std::make_shared<RawDatagram>(Str("x"))); d.Add(std::make_shared<RawDatagram>(3)); break; case 6: d[Str("k")] = 5; { Datagram c = d[Str("l")]; c.Add(std::make_shared<RawDatagram>(true)); } break; } }
extern "C" void lps_main(void) {
  Str buf; unsigned mode = lps_param("mode", 0);
  if (mode == 0) { unsigned n = lps_choose("size", lps_param("max", 16) + 1); char b[128]; if (n) lps_sym(b, n, "bytes"); buf.assign(b, n); }
  else { Datagram d; build(d, lps_param("first", 0) + lps_choose("shape", lps_param("shapes", 7))); Message m("s", "topic", d); auto raw = m.SerializeToBytes(); buf.assign((const char*)raw->GetContent(), raw->GetSize());
    if (mode == 1) { unsigned p = lps_choose("cut", buf.size()); buf.resize(p); lps_cover("truncated"); } // truncation anywhere
    else { for (unsigned k = 0; k < (unsigned)lps_param("words", 1); k++) { unsigned w = mode == 3 ? 1 : 4; unsigned p = lps_choose("at", buf.size() / w); lps_sym(&buf[p * w], w, "bytes"); } lps_cover("damaged"); } }
  auto bytes = std::make_shared<lp::data::RawBytes>(); bool empty = buf.empty();
  char* src = new char[buf.size() ? buf.size() : 1]; memcpy(src, buf.data(), buf.size()); if (!empty || lps_choose("append-nothing", 2)) bytes->Append(src, buf.size()); delete[] src;
  bool ok = false, rejected = false;
  try { Message m = Message::Deserialize(bytes); ok = true; Str s = m.GetSender(), t = m.GetTopic(); Datagram d = m.GetDatagram(); std::ostringstream o; lps_obs("s", s.size()); lps_obs("t", t.size()); lps_obs("type", (int)d.GetType()); Message c(m); lps_assert(c == m || mode != 1, "S02: a decoded message is usable"); lps_cover("decoded"); }
  catch (lp::exceptions::Exception&) { rejected = true; lps_cover("rejected"); } catch (...) { }
  lps_assert(ok != rejected, "S02: decoding succeeds or raises one of the library's exceptions"); if (empty) lps_assert(rejected, "S02: an empty buffer is rejected"); lps_obs("ok", ok);
}
