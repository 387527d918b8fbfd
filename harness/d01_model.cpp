// D01: every sequence of K operations on a datagram agrees with the abstract container.
#include "ops.h"
static Gen g;
extern "C" void lps_main(void) {
  g.strLen = lps_param("strlen", 1); g.keyLen = lps_param("keylen", 1); g.leaves = lps_param("leaves", 31); int K = lps_param("ops", 3); bool every = lps_param("every", 1);
  Datagram d; M m;
  if (lps_param("tree", 0)) { g.budget = lps_param("tree", 0); anyTree(d, m, g); }
  for (int k = 0; k < K; k++) { anyOp(d, m, (int)lps_param("depth", 1), g); if (every) checkSame(d, m, "D01: contents are those of the abstract container"); }
  checkSame(d, m, "D01: contents are those of the abstract container"); obsD(d, m);
}
