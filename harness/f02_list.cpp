// F02: a directory listing contains exactly the entries of the requested kind.
#include "os.h"
#include <lamppost/Filesystem.h>
using lp::Filesystem; using lp::FilesystemObjectType;
extern "C" void lps_main(void) {
  vos().dirs.reserve(4); VDir d; d.path = lps_choose("root", 2) ? "/d" : "rel/x"; d.unreadable = lps_choose("unreadable", 4) == 0; d.types = lps_choose("types", 2); unsigned n = d.unreadable ? 1 : lps_choose("entries", lps_param("entries", 3) + 1);
  unsigned dot = lps_choose("dots", 3);   // where the directory's own entries come: first, last, around
  bool linked = false; unsigned link = lps_choose("link", n + 1);   // which entry is a symbolic link to something of its kind
  auto add = [&](const Str& s, int k) { VEntry e; e.name = s; e.kind = k; e.link = linked; d.entries.push_back(e); };
  if (dot != 1) add(".", VDirectory); if (dot == 0) add("..", VDirectory);
  for (unsigned i = 0; i < n; i++) { Str s = anyText("name", lps_param("len", 2), 1); for (char c : s) lps_assume(c != '/'); lps_assume(!(s == ".") & !(s == "..")); for (auto& e : d.entries) lps_assume(!(e.name == s)); linked = i == link; add(s, lps_choose("kind", 4)); linked = false; }
  if (dot == 1) add(".", VDirectory); if (dot != 0) add("..", VDirectory);
  vos().dirs.push_back(d); unsigned f = 1 + lps_choose("filter", 3); bool absent = lps_choose("absent", 4) == 0;
  std::list<Str> got = Filesystem::GetDirectoryContents(absent ? "/none" : d.path, (FilesystemObjectType)f);
  std::vector<Str> want; if (!absent && !d.unreadable) for (auto& e : d.entries) if (e.name != "." && e.name != ".." && ((e.kind == VFile && (f & 1)) || (e.kind == VDirectory && (f & 2)))) want.push_back(e.name);
  lps_assert(got.size() == want.size(), "F02: exactly the entries of the requested kind are listed"); size_t i = 0; for (auto& g : got) { lps_assert(g == want[i], "F02: entries are listed once each, in directory order"); i++; lps_obs_bytes("name", g.data(), g.size()); }
  lps_assert(vos().opened == vos().closed, "F02: the directory handle is released"); if (absent) lps_cover("absent"); else if (d.unreadable) lps_cover("unreadable"); else if (want.size() > 1) lps_cover("several"); lps_obs("n", got.size());
}
