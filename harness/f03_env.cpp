// F03: environment queries return the true path or nothing.
#include "os.h"
#include <lamppost/Filesystem.h>
using lp::Filesystem;
static Str anyPath(int n) { Str s(n, 'p'); unsigned k = n < 4 ? n : 4; for (unsigned i = 0; i < k; i++) { char c; lps_sym(&c, 1, "path"); lps_assume(c != 0); if (i & 1) s[n - 1 - i / 2] = c; else s[i / 2] = c; } return s; }
extern "C" void lps_main(void) {
  static const int lens[] = {1, 2, 5, 255, 1021, 1022, 1023, 1024, 1025, 3000};
  if (lps_param("paths", 0)) {
    vos().dirs.reserve(2); VDir d; d.path = "/d"; VEntry e; e.name = anyText("name", 2, 1); lps_assume(e.name != "." && e.name != ".."); for (char c : e.name) lps_assume(c != '/'); e.kind = lps_choose("kind", 4); d.entries.push_back(e); vos().dirs.push_back(d); vos().statFails = lps_choose("stat-fails", 4) == 0; vos().accessFails = lps_choose("access-fails", 4) == 0;
    Str q = lps_choose("self", 3) ? d.path + "/" + e.name : d.path; int k = q == d.path ? VDirectory : e.kind; bool isF = Filesystem::IsFile(q), isD = Filesystem::IsDirectory(q), ex = Filesystem::PathExists(q);
    lps_assert(isF == (!vos().statFails && k == VFile), "F03: a file is reported as one"); lps_assert(isD == (!vos().statFails && k == VDirectory), "F03: a directory is reported as one"); lps_assert(ex == (!vos().accessFails && k != VGone), "F03: existence is what the system reports"); lps_obs("r", isF + 2 * isD + 4 * ex); lps_cover("kinds"); return; }
  int which = lps_choose("query", 2), n = lps_choose("length", 11); vos().pid = lps_choose("pid", 2) ? 1 : 4711;
  if (n == 10) vos().linkLen = vos().cwdLen = -1; else { vos().linkLen = vos().cwdLen = lens[n]; vos().link = vos().cwd = anyPath(lens[n]); }
  if (!which && lps_choose("asked-before", 2)) { Str l = vos().cwd; int n = vos().cwdLen; vos().cwd = "/other"; vos().cwdLen = 6; lps_assert(Filesystem::GetWorkingDirectory() == "/other", "F03: the query returns the path the system reports"); vos().cwd = l; vos().cwdLen = n; lps_cover("asked again"); }   // the working directory may change between queries
  Str got = which ? Filesystem::GetPathOfRunningExecutable() : Filesystem::GetWorkingDirectory();
  const char* m = "F03: the query returns the path the system reports"; 
  if (n == 10) { lps_assert(got.empty(), "F03: a failing query returns an empty path"); lps_cover("failed"); }
  else if (lens[n] <= 1022) { lps_assert(got == vos().link, m); lps_cover("reported"); }
  else { lps_assert(got.empty() || got == vos().link, "F03: an overlong path is reported in full or not at all"); lps_cover("overlong"); }
  lps_obs("size", got.size()); lps_obs("last", got.empty() ? 0 : (unsigned char)got.back());
}
