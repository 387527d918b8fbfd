// U01: a pattern matches its own topic, or everything if it is the wildcard.
#include "common.h"
#include <lamppost/utilities/AntMatcher.h>
extern "C" void lps_main(void) {
  unsigned L = lps_param("len", 6); Str p = anyStr("pattern", L), t = anyStr("topic", L);
  bool want = (p == t) | (p == "/**/*"); bool got = lp::utilities::AntMatcher::Matches(p, t);
  lps_assert(got == want, "U01: matches exactly when identical or the wildcard"); lps_obs("m", got); if (got) lps_cover("match"); else lps_cover("no match");
}
