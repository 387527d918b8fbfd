// P01: exactly the valid plugin libraries are kept; every opened library is closed exactly once.
#include "plug.h"
static bool hasExt(const Str& n) { size_t p = n.rfind('.'); return p != Str::npos && n.size() - p == 3 && n[p + 1] == 's' && n[p + 2] == 'o'; }
static Str anyName(unsigned mode) { // a file name near a plugin library's
  Str n = "libplugin_x.so"; if (mode == 0) return n;
  if (mode == 1) { unsigned at = lps_choose("at", n.size()); char c; lps_sym(&c, 1, "char"); lps_assume(c != 0 && c != '/'); n[at] = c; return n; }   // one character different
  if (mode == 2) { unsigned from = lps_choose("from", n.size()), cnt = 1 + lps_choose("cut", 4); n.erase(from, cnt); lps_assume(!n.empty()); return n; }   // a piece missing
  if (mode == 3) return n + anyText("tail", 2, 1); if (mode == 4) return anyText("head", 2, 1) + n; return anyText("short", lps_param("short", 3), 1); }
extern "C" void lps_main(void) {
  defaultOs(); unsigned n = lps_param("libs", 1); bool names = lps_param("names", 0); static const char* dirs[] = {"/x", "/w", "/w/lib", "/e", "/f"}; for (auto d : dirs) addDir(d);
  std::vector<bool> want(n, false); vlibs().reserve(4); unsigned extra = lps_param("extra", 1); std::vector<int> place;
  for (unsigned i = 0; i < n; i++) { unsigned dir = names ? 3 : lps_choose("directory", 4); bool same = lps_param("same", 0); if (same) for (int o : place) lps_assume(o != (int)dir); VDir& d = vos().dirs[dir]; Str f = names ? anyName(lps_choose("name", 6)) : "libplugin_" + std::to_string(same ? 0 : i) + ".so"; for (char c : f) lps_assume(c != '/'); if (names) lps_assume(f != "." && f != "..");
    int state = lps_choose("state", same ? 2 : 5), kind = names || same ? 0 : lps_choose("kind", 3); addLib(d, lps_choose("identifier", 2) ? "A" : "B", state, f); d.entries.back().kind = kind; place.push_back((int)dir); want[i] = kind == 0 && state == LibOk && (!names || (f.compare(0, 10, "libplugin_") == 0 && hasExt(f))); if (names) { if (!(f.compare(0, 10, "libplugin_") == 0 && hasExt(f))) vlibs()[i].user = true; lps_cover(vlibs()[i].user ? "other file" : "plugin file"); } if (kind != 0) vlibs()[i].user = true; }
  { lp::PluginManagerConfiguration c; if (extra) c.mTemplateSearchPaths.push_back("/e"); auto root = std::make_shared<lp::bus::Bus>("root"); lp::PluginManager pm(c); if (extra == 2) pm.AddTemplateSearchPath("/absent"); pm.SetBus(root);
    pm.LoadTemplates();
    for (unsigned i = 0; i < n; i++) { VLib& v = vlibs()[i]; int could = v.user || v.state == LibUnopenable ? 0 : 1; lps_assert(v.opens == could, "P01: exactly the files with the plugin prefix and library extension are opened, once"); if (v.opens && !want[i]) lps_assert(v.closes == 1, "P01: a rejected library is closed at once"); }
    for (const char* id : {"A", "B"}) { bool have = false; int open = 0; for (unsigned i = 0; i < n; i++) if (vlibs()[i].id == id && want[i]) { have = true; open += libOpen(i); } if (have) lps_assert(open >= 1, "P01: a valid plugin library stays open"); if (lps_param("same", 0)) lps_cover("same file name"); auto inst = pm.InstantiateTemplate(id, lp::PluginConfiguration()); lps_assert((inst != nullptr) == have, "P01: exactly the valid plugins can be instantiated"); if (inst) { lps_assert(inst->GetIdentifier() == Str(id) + "0", "P01: the plugin instantiated is the one asked for"); Life* l = lives().back(); lps_assert(vlibs()[l->lib].id == id && libOpen(l->lib), "P01: the plugin instantiated is the one asked for"); lps_cover("kept"); } }
    if (lps_choose("unload", 2)) { pm.UnloadTemplates(); for (unsigned i = 0; i < n; i++) lps_assert(vlibs()[i].opens == vlibs()[i].closes, "P01: every opened library is closed exactly once"); for (const char* id : {"A", "B"}) lps_assert(pm.InstantiateTemplate(id, lp::PluginConfiguration()) == nullptr, "P01: an unloaded plugin cannot be instantiated"); lps_cover("unloaded"); if (lps_param("reload", 0)) { pm.LoadTemplates(); lps_cover("reloaded"); } } }
  for (unsigned i = 0; i < n; i++) { lps_assert(vlibs()[i].opens == vlibs()[i].closes, "P01: every opened library is closed exactly once"); lps_obs("opens", vlibs()[i].opens); }
  lps_assert(vos().opened == vos().closed, "P01: directory handles are released");
}
