// M01: sender prefixes.
#include "common.h"
extern "C" void lps_main(void) {
  unsigned L = lps_param("len", 3), N = lps_param("namelen", 2); Str s = anyStr("sender", L), n = anyStr("name", N); Datagram d; d = 1; Message a(s, "t", d);
  bool is = s.size() > n.size() && s.compare(0, n.size(), n) == 0 && s[n.size()] == '/';
  lps_assert(a.WasSentBySender(n) == is, "M01: recognised exactly when the sender starts with the name and a slash");
  Message b(a); b.RemoveSender(n); lps_assert(b.GetSender() == (is ? s.substr(n.size() + 1) : s), "M01: removing a name removes exactly that prefix");
  Message c(a); c.PrependSender(n); lps_assert(c.GetSender() == n + "/" + s, "M01: prepending puts name and slash in front"); lps_assert(c.WasSentBySender(n), "M01: a prepended name is recognised"); c.RemoveSender(n); lps_assert(c.GetSender() == s, "M01: removing a prepended name restores the sender");
  lps_assert(a.GetSender() == s && a.GetTopic() == "t" && c.GetTopic() == "t", "M01: nothing else changes"); Str m = anyStr("name", N); Message e(a); e.PrependSender(n); e.PrependSender(m); e.RemoveSender(m); e.RemoveSender(n); lps_assert(e.GetSender() == s, "M01: nested prefixes are removed in reverse order");
  if (is) lps_cover("recognised"); lps_obs("is", is);
}
