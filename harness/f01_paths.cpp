// F01: path helpers split and join paths consistently.
#include "common.h"
#include <lamppost/Filesystem.h>
using lp::Filesystem;
extern "C" void lps_main(void) {
  if (!lps_param("join", 0)) {
    Str p = anyStr("path", lps_param("len", 6)); Str f = Filesystem::GetFilename(p), b = Filesystem::GetBaseDirectory(p), x = Filesystem::GetFileExtension(p);
    int slash = -1, dot = -1; for (int i = 0; i < (int)p.size(); i++) if (p[i] == '/') { slash = i; dot = -1; } else if (p[i] == '.') dot = i;
    Str wf = slash >= 0 ? p.substr(slash + 1) : "", wb = slash >= 0 ? p.substr(0, slash) : "", wx = slash >= 0 && dot >= 0 ? p.substr(dot + 1) : "";
    lps_assert(f == wf, "F01: the file name is what follows the last slash"); lps_assert(b == wb, "F01: the base directory is what precedes the last slash"); lps_assert(x == wx, "F01: the extension is what follows the file name's last dot");
    if (!wx.empty()) lps_cover("extension"); lps_obs_bytes("f", f.data(), f.size()); lps_obs_bytes("b", b.data(), b.size()); lps_obs_bytes("x", x.data(), x.size());
  } else {
    Str d = anyStr("directory", lps_param("len", 4)), n = anyStr("name", lps_param("len", 4)); for (char c : n) lps_assume(c != '/');
    Str p = Filesystem::CombinePaths(d, n); lps_assert(p == d + "/" + n, "F01: joining puts one slash in between"); lps_assert(Filesystem::GetFilename(p) == n && Filesystem::GetBaseDirectory(p) == d, "F01: splitting a joined path gives both parts back"); lps_obs_bytes("p", p.data(), p.size()); lps_cover("joined");
  }
}
