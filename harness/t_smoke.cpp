#include "lps.h"
#include <lamppost/messages/Message.h>
#include <sstream>
#include <iostream>
using namespace lp::messages;
extern "C" void lps_main(void) {
  char b[4]; lps_sym(b, 3, "s"); b[3] = 0;
  std::string s(b, 3);
  Datagram d; d["a"] = s; d["b"] = 5; d["c"] = 2.5;
  Datagram e(d);
  lps_assert(e == d, "copy equal");
  Message m("send", "topic", d);
  auto bytes = m.SerializeToBytes();
  Message n = Message::Deserialize(bytes);
  lps_assert(n == m, "round trip");
  std::ostringstream o; o << d;
  lps_obs("len", o.str().size());
  lps_obs_bytes("txt", o.str().data(), o.str().size());
  lps_assert(o.str() == "{a: \"" + s + "\", b: 5, c: 2.5}", "text");
  int x = (int)lps_val("x"); lps_assume(x > -200 && x < 200);
  std::ostringstream p; p << x; lps_obs_bytes("int", p.str().data(), p.str().size());
  try { d.Remove(std::string("zz")); lps_fail("no throw"); } catch (lp::exceptions::KeyNotFoundException& ex) { lps_obs("kx", ex.GetKey().size()); }
  try { d.Get<int>(); lps_fail("no throw"); } catch (lp::exceptions::Exception& ex) { lps_cover("exc"); }
}
